"""Module loading and models of external libraries."""
import ast
import functools
import json
import os
from .desugar import desugar
from .models import *

PLAIN_PARSERS = {'parse_int': ('bi', 'int'), 'parse_float': ('bi', 'float'), 'object_hook': ('bi', 'dict'), 'object_pairs_hook': ('bi', 'dict'), 'cls': ('ext', 'json.JSONDecoder')}
PARSERS = {('bi', x.__name__): x for x in (int, float, str, dict, list)}
REQUIRED = {'json.dumps': ('obj',), 'json.loads': ('s',), 'json.dump': ('obj', 'fp'), 'json.load': ('fp',), 'copy.deepcopy': ('x',), 'copy.copy': ('x',),
            'os.path.join': ('a',), 'os.path.basename': ('p',), 'os.path.dirname': ('p',), 'os.path.isdir': ('s',), 'os.path.getmtime': ('filename',), 'os.path.getsize': ('filename',),
            'os.path.splitext': ('p',), 'os.mkdir': ('path',), 'os.open': ('path', 'flags'), 'os.stat': ('path',), 'os.utime': ('path',), 'os.fspath': ('path',), 'open': ('file', 'mode'), 'io.open': ('file', 'mode'),
            'shutil.rmtree': ('path',), 'urllib.parse.parse_qs': ('qs',), 'urllib.parse.urlencode': ('query',), 'urllib.parse.quote_plus': ('string',), 'urllib.parse.unquote_plus': ('string',), 'urllib.parse.urlparse': ('url',), 'urllib.parse.urlsplit': ('url',),
            'cryptojwt.utils.as_unicode': ('b',), 'cryptojwt.as_unicode': ('b',), 'importlib.import_module': ('name',), 'functools.wraps': ('wrapped',), 'datetime.datetime.fromtimestamp': ('timestamp',),
            'cryptojwt.jws.utils.left_hash': ('msg', 'func'), 'cryptojwt.jws.jws.factory': ('token',), 'cryptojwt.jwe.jwe.factory': ('token',), 'inspect.isclass': ('object',), 're.compile': ('pattern', 'flags')}

PRELUDE = '''
class MutableMapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default
    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True
    def keys(self):
        return [k for k in self]
    def values(self):
        return [self[k] for k in self]
    def items(self):
        return [(k, self[k]) for k in self]
    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if not default:
                raise
            return default[0]
        else:
            del self[key]
            return value
    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default
    def clear(self):
        for k in list(self):
            del self[k]
    def update(self, other=(), **kwds):
        if hasattr(other, 'keys'):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

class Mapping:
    get = MutableMapping.get
    keys = MutableMapping.keys
    items = MutableMapping.items
    values = MutableMapping.values
    __contains__ = MutableMapping.__contains__
'''

PKG = 'oidcmsg'


class World(Models):
    def __init__(self, root):
        super().__init__()
        self.root = root
        self.modules = {}
        self.trees = {}
        self.spec_fns = {}
        self.logged = []
        self.install()

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def module_exists(self, name):
        return name.split('.')[0] == PKG and self.module_path(name)[0] is not None

    def is_package(self, name):
        return self.module_path(name)[1]

    def import_module(self, st, name):
        if name in self.modules:
            return ('mod', name)
        if name == 'collections.abc':
            return ('ext', name)
        if name.split('.')[0] != PKG:
            return ('ext', name)
        parent = name.rpartition('.')[0]
        if parent:
            self.import_module(st, parent)
            if name in self.modules:
                return ('mod', name)
        path, pkg = self.module_path(name)
        if path is None:
            self.raise_(st, 'ImportError', K(name))
        with open(path) as f:
            src = f.read()
        self.load_source(st, name, src, path)
        if parent:
            st.setl('mod:' + parent, name.rpartition('.')[2], ('mod', name))
        return ('mod', name)

    def some_parts(self, a, f):
        r = tuple(f(i) for i in a[:-1])
        return r[0] if len(r) == 1 else ('tup', r)

    def load_source(self, st, name, src, path):
        tree = desugar(ast.parse(src, path))
        self.modules[name] = path
        self.trees[name] = tree
        st.frames['mod:' + name] = {}
        ctx = Ctx('mod:' + name, name)
        self.stack.append(ctx)
        try:
            outs = self.exec_block(tree.body, st.copy(), ctx, None, None)
        finally:
            self.stack.pop()
        if len(outs) != 1 or outs[0][1] != NEXT:
            raise Undecided('module %s: %s' % (name, [o[1] for o in outs][:3]))
        st.become(outs[0][0])

    def build(self):
        st = State()
        State.world_heap, State.world_frames, State.world_nid = {}, {}, 1
        self.load_source(st, 'collections.abc', PRELUDE, '<prelude>')
        names = []
        base = os.path.join(self.root, PKG)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            rel = os.path.relpath(d, self.root).replace(os.sep, '.')
            for f in sorted(files):
                if f.endswith('.py'):
                    names.append(rel if f == '__init__.py' else rel + '.' + f[:-3])
        def run(z):
            for n in sorted(names, key=lambda x: (x.count('.'), x)):
                self.import_module(z, n)
        outs = self.explore(st, run)
        if len(outs) != 1 or outs[0][1] != 'val':
            raise Undecided('package does not load: %s' % ([o[1:] for o in outs][:2],))
        st = outs[0][0]
        State.world_heap, State.world_frames, State.world_nid = st.heap, st.frames, st.nid + 1000
        self.names = names
        return self

    # ------------------------------------------------------------ externals
    def ext_attr(self, st, v, name):
        full = v[1] + '.' + name
        if v[1] == 'collections.abc' and name in ('MutableMapping', 'Mapping'):
            return ('cls', 'collections.abc.' + name)
        if v[1] in ('abc',) and name == 'ABC':
            return ('ext', 'abc.ABC')
        c = EXT_CONST.get(full)
        if c is not None:
            return c
        h = self.hooks.get('attr:' + full)
        if h:
            return h(self, st)
        return ('ext', full)

    def call_ext(self, st, name, args, kw, node):
        h = self.hooks.get(name)
        if kw and '**' not in kw and h is not None:
            # required parameters may be given by name
            for p in REQUIRED.get(name, ())[len(args):]:
                if p not in kw:
                    break
                kw = dict(kw)
                args = list(args) + [kw.pop(p)]
        if h is None:
            top = name.split('.')[0]
            h = self.hooks.get(top + '.*')
        if h is not None:
            r = h(self, st, name, args, kw)
            if r is not None:
                return r
        last = name.rpartition('.')[2]
        if is_exc_name(last):
            return ('exc', ('ext', name), tuple(args), self.where())
        h = self.hooks.get('ext')
        if h:
            r = h(self, st, name, args, kw)
            if r is not None:
                return r
        return T('call', ('ext', name), tuple(self.freeze(st, a) for a in args), self.fzkw(st, kw))

    def install(self):
        h = self.hooks
        h['copy.deepcopy'] = lambda s, st, n, a, k: s.deepcopy(st, a[0], {})
        h['copy.copy'] = lambda s, st, n, a, k: s.shallow(st, a[0])
        h['json.dumps'] = lambda s, st, n, a, k: s.json_dumps(st, a[0], True, k.get('default', NONE) != NONE, k)
        h['json.loads'] = lambda s, st, n, a, k: s.json_loads(st, a[0], k)
        h['logging.*'] = lambda s, st, n, a, k: T('logger')
        h['cryptojwt.utils.as_unicode'] = lambda s, st, n, a, k: s.decoded(a[0]) if a[0][0] in ('k', 't') else None
        h['cryptojwt.as_unicode'] = h['cryptojwt.utils.as_unicode']
        h['urllib.parse.urlparse'] = lambda s, st, n, a, k: T('urlparse', s.freeze(st, a[0]))
        h['urllib.parse.urlsplit'] = h['urllib.parse.urlparse']
        h['urllib.parse.urlencode'] = h['urllib.parse.parse_qs'] = self.form
        h['urllib.parse.quote_plus'] = lambda s, st, n, a, k: s.inverse(st, 'quote_plus', 'unquote_plus', a)
        h['urllib.parse.unquote_plus'] = lambda s, st, n, a, k: s.inverse(st, 'unquote_plus', 'quote_plus', a)
        h['inspect.isclass'] = lambda s, st, n, a, k: K(a[0][0] in ('cls', 'bi') and (a[0][0] == 'cls' or a[0][1] in TYPE_NAMES)) if a[0][0] != 'ext' else T('call', ('ext', n), tuple(a), ())
        h['inspect.getmembers'] = self.getmembers
        h['importlib.import_module'] = lambda s, st, n, a, k: s.import_module(st, a[0][2]) if a[0][0] == 'k' and s.module_exists(a[0][2]) else T('call', ('ext', n), tuple(s.freeze(st, x) for x in a), ())
        h['functools.wraps'] = lambda s, st, n, a, k: ('bi', '$identity')
        for x in ('itemgetter', 'attrgetter', 'methodcaller'):
            h['operator.' + x] = lambda s, st, n, a, k: ('partial', ('ext', 'apply.' + n.rpartition('.')[2]), tuple(a), tuple(k.items()))
        h['apply.itemgetter'] = lambda s, st, n, a, k: self.some_parts(a, lambda i: self.getitem(st, a[-1], i))
        h['apply.attrgetter'] = lambda s, st, n, a, k: self.some_parts(a, lambda i: functools.reduce(lambda v, x: self.getattr(st, v, x), i[2].split('.'), a[-1]))
        h['apply.methodcaller'] = lambda s, st, n, a, k: self.call(st, self.getattr(st, a[-1], a[0][2]), list(a[1:-1]), k)
        h['functools.partial'] = lambda s, st, n, a, k: ('partial', a[0], tuple(a[1:]), tuple(k.items()))
        h['contextlib.suppress'] = lambda s, st, n, a, k: T('suppress', tuple(a))
        h['collections.OrderedDict'] = lambda s, st, n, a, k: s.b_dict(st, a, k)
        h['meth'] = self.meth_any
        for n in ('match', 'fullmatch', 'search'):
            h['re.' + n] = self.regex
        h['hmac.compare_digest'] = lambda s, st, n, a, k: TRUE if s.equal(st, a[0], a[1]) else FALSE
        h['secrets.compare_digest'] = h['hmac.compare_digest']
        self.install_time()

    def regex(self, s, st, n, a, k):
        """constants only: match objects of other texts stay unknown"""
        a = [st.facts.const(x) or x if x[0] == 't' else x for x in a]
        if len(a) == 2 and not k and all(x[0] == 'k' and x[1] == 'str' for x in a):
            import re
            try:
                r = getattr(re, n[3:])(a[0][2], a[1][2])
            except re.error:
                return None
            if r is None:
                return NONE
            t = T('rematch', *[K(g) for g in (r.group(),) + r.groups()])
            s.assume(st, ('truthy', t), True)
            return t
        if len(a) > 1 and a[0][0] == 't' and a[0][1] == 'call' and a[0][2] == ('ext', 're.compile') and len(a[0][3]) == 1:
            return self.regex(s, st, n, [a[0][3][0]] + list(a[1:]), k)
        return None

    def meth_any(self, s, st, v, m, a, kw):
        if v == T('logger'):
            return NONE
        if v[1] == 'call' and v[2] == ('ext', 're.compile') and m in ('match', 'fullmatch', 'search'):
            return self.call_ext(st, 're.' + m, [v] + list(a), kw, None)
        if v[1] == 'rematch' and m in ('group', 'groups'):
            g = v[2:]
            if m == 'groups':
                return ('tup', g[1:])
            if not a:
                return g[0]
            if len(a) == 1 and a[0][0] == 'k' and a[0][1] == 'int' and a[0][2] < len(g):
                return g[a[0][2]]
        return None

    def getmembers(self, s, st, n, a, k):
        v = a[0]
        if v[0] == 't' and v[1] == 'module':
            v = ('mod', v[2])
        if v[0] == 'mod':
            items = []
            for name, val in sorted(st.frame('mod:' + v[1]).items()):
                items.append(('tup', (K(name), val)))
        elif v[0] == 'cls':
            seen = {}
            for c in self.classes[v[1]].mro:
                if c[0] == 'cls':
                    for name, val in st.frame(self.classes[c[1]].fid).items():
                        seen.setdefault(name, val)
            items = [('tup', (K(n_), x)) for n_, x in sorted(seen.items())]
        else:
            return None
        if len(a) > 1:
            items = [i for i in items if self.truth(st, self.call(st, a[1], [i[1][1]], {}))]
        return st.new(ListO(items))

    def inverse(self, st, f, g, a):
        v = self.freeze(st, a[0])
        if v[0] == 't' and v[1] == g:
            return v[2]
        if v[0] == 'k' and v[1] == 'str':
            import urllib.parse
            return K(getattr(urllib.parse, f)(v[2]))
        return T(f, v)

    def deepcopy(self, st, v, seen):
        if v[0] == 'r':
            if v[1] in seen:
                return seen[v[1]]
            o = st.obj(v)
            r = st.new(o)
            seen[v[1]] = r
            if isinstance(o, DictO):
                st.setobj(r, DictO(o.base, o.layers, {k: self.dc_entry(st, e, seen) for k, e in o.conc.items()}))
            elif isinstance(o, ListO):
                st.setobj(r, type(o)(tuple(self.deepcopy(st, i, seen) if i[0] not in ('gen', 'maybe') else i for i in o.items), o.kind))
            elif isinstance(o, InstO):
                st.setobj(r, InstO(o.cls, {n: self.deepcopy(st, x, seen) for n, x in o.attrs.items()}))
            return r
        if v[0] == 'tup':
            return ('tup', tuple(self.deepcopy(st, x, seen) for x in v[1]))
        return v

    def dc_entry(self, st, e, seen):
        if e in (DEL, MISS):
            return e
        if e[0] == 'ite':
            return ('ite', e[1], self.dc_entry(st, e[2], seen), self.dc_entry(st, e[3], seen))
        return self.deepcopy(st, e, seen)

    def shallow(self, st, v):
        if v[0] == 'r':
            return st.new(st.obj(v))
        return v

    def form(self, s, st, n, a, k):
        """form encoding of what is known in full"""
        f = n.rpartition('.')[2]
        try:
            import urllib.parse
            x = [self.to_python(st, y) for y in a]
            return self.from_python(st, getattr(urllib.parse, f)(*x, **{m: self.to_python(st, y) for m, y in k.items()}))
        except (ValueError, TypeError):
            pass
        v = s.freeze(st, a[0])
        if f == 'parse_qs' and v[0] == 't' and v[1] == 'urlencode' and len(a) == 1 and not k:
            r = self.formed(st, v[2])
            if r is not None:
                return r
        return T(f, v)

    def formed(self, st, v):
        """what reading a form that was written from known names and text values gives"""
        if v[0] != 't' or v[1] != 'lst':
            return None
        names = {}
        for i in v[3]:
            if i[0] == 'k' and i[1] == 'tuple':
                i = ('tup', i[2])
            if i[0] != 'tup' or len(i[1]) != 2 or i[1][0][0] != 'k' or i[1][0][1] != 'str':
                return None
            n, x = i[1]
            if x[0] == 't' and x[1:3] == ('m', 'encode'):
                x = x[3]
            elif x[0] == 'k' and x[1] == 'bytes':
                x = K(x[2].decode())
            elif 'str' not in (st.facts.types(x) or ()) and not (x[0] == 't' and x[1] == 'concat'):
                return None
            if not (x[0] == 't' and x[1] == 'concat' and any(y[0] == 'k' and y[2] for y in x[2])) and self.equal(st, x, K('')):
                continue
            names.setdefault(n, []).append(x)
        d = DictO()
        for n, xs in names.items():
            d = d.put(n, st.new(ListO(tuple(xs))))
        return st.new(d)

    def unjson(self, st, v):
        """is something in it certainly not JSON?"""
        if v[0] == 'k':
            return v[1] in ('bytes', 'bytearray', 'set', 'frozenset')
        if v[0] == 'tup':
            return any(self.unjson(st, x) for x in v[1])
        o = st.obj(v) if v[0] == 'r' else None
        if isinstance(o, SetO):
            return True
        if isinstance(o, ListO):
            return any(self.unjson(st, x) for x in o.items if x[0] not in ('gen', 'maybe'))
        if isinstance(o, DictO):
            return any(self.unjson(st, x) for x in o.conc.values() if isinstance(x, tuple))
        if isinstance(o, InstO):
            return '$dict' not in o.attrs
        return v[0] == 't' and v[1] == 'obj'

    def json_dumps(self, st, v, plain=False, default=False, how=()):
        how = {x: y for x, y in dict(how).items() if y != NONE and x not in ('obj', 'fp')}
        if how.pop('cls', ('ext', 'json.JSONEncoder')) != ('ext', 'json.JSONEncoder') or how.get('skipkeys', FALSE) != FALSE:
            return T('jsondumpsdefault', self.freeze(st, v))
        if self.unjson(st, v):
            if default:
                return T('jsondumpsdefault', self.freeze(st, v))
            self.raise_(st, 'TypeError', K('not JSON serializable'))
        if plain:
            try:
                return K(json.dumps(self.to_python(st, v), **{x: self.to_python(st, y) for x, y in how.items() if x != 'default'}))
            except (ValueError, TypeError):
                pass
        if v[0] == 'r' and isinstance(st.obj(v), InstO):
            if '$dict' not in st.obj(v).attrs:
                self.raise_(st, 'TypeError', K('not JSON serializable'))
        if v[0] == 't' and v[1] == 'obj':
            self.raise_(st, 'TypeError', K('not JSON serializable'))
        return T('jsondumps', self.freeze(st, v))

    def from_python(self, st, x):
        if isinstance(x, list):
            return st.new(ListO(tuple(self.from_python(st, y) for y in x)))
        if isinstance(x, dict):
            d = DictO()
            for k, y in x.items():
                d = d.put(K(k), self.from_python(st, y))
            return st.new(d)
        return K(x)

    def thaw_json(self, st, v):
        if v[0] == 't' and v[1] == 'dct':
            o = v[2]
            if isinstance(o, DictO) and o.simple():
                return st.new(DictO(o.base, o.layers, {k: self.thaw_json(st, x) for k, x in o.conc.items()}))
            return st.new(o)
        if v[0] == 't' and v[1] == 'lst' and all(i[0] not in ('gen', 'maybe') for i in v[3]):
            return st.new(ListO(tuple(self.thaw_json(st, i) for i in v[3])))
        if v[0] == 'tup':
            return st.new(ListO(tuple(self.thaw_json(st, i) for i in v[1])))
        if v[0] == 't':
            return self.thaw_deep(st, v)
        if v[0] == 'k' and v[1] in ('list', 'tuple'):
            return st.new(ListO(tuple(self.thaw_json(st, i) for i in v[2])))
        if v[0] == 'k' and v[1] == 'dict':
            return self.thaw(st, v)
        return v

    def decoded(self, v):
        """the text that bytes hold, where that is known"""
        if v[0] == 'k' and v[1] == 'bytes':
            try:
                return K(v[2].decode())
            except UnicodeDecodeError:
                return v
        if v[0] == 't' and v[1:3] == ('m', 'encode') and (len(v) == 4 or len(v) == 5 and v[4] in (K('utf-8'), K('utf8'))):
            return v[3]
        return v

    def json_loads(self, st, v, how=()):
        how = {x: y for x, y in dict(how).items() if y != NONE and x not in ('s', 'fp', 'strict')}
        v = self.decoded(self.freeze(st, v))
        if how and v[0] == 'k' and v[1] == 'str' and all(y in PARSERS for y in how.values()):
            try:
                return self.from_python(st, json.loads(v[2], **{x: PARSERS[y] for x, y in how.items()}))
            except ValueError:
                self.raise_(st, 'JSONDecodeError', cls=('ext', 'json.JSONDecodeError'))
        if how and not all(PLAIN_PARSERS.get(x) == y for x, y in how.items()):
            self.json_loads(st, v)
            return T('jsonparsed', v, tuple(sorted((x, self.freeze(st, y)) for x, y in how.items())))
        if v[0] == 't' and v[1] == 'jsondumps':
            return self.thaw_json(st, v[2])
        ty = st.facts.types(v)
        if v[0] == 'tup' or v[0] == 't' and v[1] in ('obj', 'dct', 'lst', 'map', 'listof'):
            self.raise_(st, 'TypeError')
        if ty and not (ty & {'str', 'bytes', 'bytearray'}):
            self.raise_(st, 'TypeError')
        if v[0] == 'k' and v[1] == 'str':
            try:
                return self.from_python(st, json.loads(v[2]))
            except ValueError:
                self.raise_(st, 'JSONDecodeError', cls=('ext', 'json.JSONDecodeError'))
        if not self.decide(st, ('jsonok', v)):
            self.raise_(st, 'JSONDecodeError', cls=('ext', 'json.JSONDecodeError'))
        return T('json', v)

    # ------------------------------------------------------------ time
    def install_time(self):
        h = self.hooks
        NOW = T('NOW')
        h['time.time'] = lambda s, st, n, a, k: NOW
        h['time.gmtime'] = lambda s, st, n, a, k: T('gmtime', s.freeze(st, a[0]) if a and a[0] != NONE else NOW)
        h['calendar.timegm'] = lambda s, st, n, a, k: s.timegm(st, a[0])
        h['datetime.datetime.strptime'] = lambda s, st, n, a, k: s.strptime(st, n, a)
        h['datetime.date.fromisoformat'] = h['datetime.datetime.fromisoformat'] = self.fromiso
        h['time.strptime'] = lambda s, st, n, a, k: s.strptime(st, n, a)
        h['datetime.datetime.utcnow'] = lambda s, st, n, a, k: T('utcnow')
        h['datetime.datetime.now'] = lambda s, st, n, a, k: T('utcnow') if (a or k) and 'utc' in repr(list(a) + list(k.values())).lower() else T('localnow')
        h['datetime.datetime.utcfromtimestamp'] = lambda s, st, n, a, k: T('dtadd', T('epoch0'), s.freeze(st, a[0])) if s.freeze(st, a[0]) != NOW else T('utcnow')

    def strptime(self, st, n, a):
        v, f = self.freeze(st, a[0]), self.freeze(st, a[1])
        if v[0] == 't':
            v = st.facts.const(v) or v
        ty = st.facts.types(v)
        if v[0] == 'tup' or v[0] == 't' and v[1] in ('obj', 'dct', 'lst', 'map', 'listof') or ty and 'str' not in ty:
            self.raise_(st, 'TypeError')
        if v[0] == f[0] == 'k' and v[1] == f[1] == 'str':
            import time
            try:
                time.strptime(v[2], f[2])
            except ValueError:
                self.raise_(st, 'ValueError')
        elif not self.decide(st, ('strptimeok', v, f)):
            self.raise_(st, 'ValueError')
        return T('strptime', n, v, f)

    def fromiso(self, s, st, n, a, k):
        a = [st.facts.const(x) or x if x[0] == 't' else x for x in a]
        if len(a) == 1 and a[0][0] == 'k' and a[0][1] == 'str':
            import datetime
            try:
                getattr(datetime, n.split('.')[1]).fromisoformat(a[0][2])
            except ValueError:
                self.raise_(st, 'ValueError')
        elif len(a) == 1 and not self.decide(st, ('p', 'isook', T('call', ('ext', n), (self.freeze(st, a[0]),)))):
            self.raise_(st, 'ValueError')
        return None

    def timegm(self, st, v):
        v = self.freeze(st, v)
        if v[0] == 't' and v[1] == 'gmtime':
            return v[2]
        if v[0] == 't' and v[1] == 'm' and v[2] in ('utctimetuple', 'timetuple') and v[3] == T('utcnow'):
            return T('NOW')
        return T('timegm', v)

    def hook_sub(self, st, l, r):
        if l == T('utcnow') and r[0] == 't' and r[1] == 'call' and r[2] == ('ext', 'datetime.datetime') and r[3][:3] == (K(1970), K(1), K(1)):
            return T('sinceepoch')
        return None

    def b_identity(self, st, args, kw):
        return args[0]


def is_exc_name(n):
    return n.endswith('Error') or n.endswith('Exception') or n in ('NoSuitableSigningKeys', 'UnsupportedAlgorithm', 'BadSignature')


EXT_CONST = {
    'typing.TYPE_CHECKING': FALSE,
    'os.sep': K('/'),
    'os.path.sep': K('/'),
    'string.ascii_letters': K('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'),
    'string.digits': K('0123456789'),
}
