"""Attribute access, calls, classes."""
import ast
from .evalx import *
from .astinfo import has_break, live_before, loads, stores

DICT_METHODS = {'get', 'keys', 'values', 'items', 'pop', 'update', 'setdefault', 'copy', 'clear', '__getitem__', '__setitem__',
                '__delitem__', '__contains__', '__len__', '__iter__', 'popitem', '__init__', '__eq__'}


class Objects(Evaluator):

    # ------------------------------------------------------------ classes
    def find_attr(self, st, cls, name, after=None):
        """class attribute by MRO; value or None"""
        v, _ = self.find_attr_owner(st, cls, name, after)
        return v

    def find_attr_owner(self, st, cls, name, after=None):
        info = self.classes.get(cls)
        if info is None:
            return None, None
        seen = after is None
        for c in info.mro:
            if not seen:
                if c == ('cls', after):
                    seen = True
                continue
            if c[0] == 'cls':
                v = st.frame(self.classes[c[1]].fid).get(name)
                if v is not None:
                    return v, c
            elif c == ('bi', 'dict') and name in DICT_METHODS:
                return ('bi', 'dict.' + name), c
            elif name == '__init__':
                return ('bi', 'object.__init__'), c
        return None, None

    def is_subclass(self, c, d):
        """both class values; True/False/None"""
        if c == d or d == ('bi', 'object'):
            return True
        if c[0] == 'cls':
            if d in self.classes[c[1]].mro:
                return True
            r = False
            for b in self.classes[c[1]].mro:
                if b[0] in ('bi', 'ext'):
                    x = self.is_subclass(b, d)
                    if x:
                        return True
                    if x is None:
                        r = None
            return r
        if c[0] == 'bi' and d[0] == 'bi':
            import builtins
            x, y = getattr(builtins, c[1], None), getattr(builtins, d[1], None)
            try:
                return issubclass(x, y)
            except TypeError:
                return False
        if c[0] == 'ext':
            if d in EXT_BASES.get(c[1], ()):
                return True
            if c[1] in EXT_BASES:
                return False
            if d in (('bi', 'Exception'), ('bi', 'BaseException')):
                return True if c[1].split('.')[-1][:1].isupper() else None
            if d[0] == 'ext' and EXT_BASES.get(c[1]) is None:
                return False
            return False
        if c[0] == 'any':
            if d in (('bi', 'Exception'), ('bi', 'BaseException')):
                return True
            return None
        return False

    def mk_class(self, st, ctx, node, bases, kw):
        qual = (ctx.mod + '.' + node.name) if not ctx.qual or ctx.info is None and ctx.cls is None else ctx.mod + '.' + ctx.qual + '.' + node.name
        fid = 'cls:' + qual
        info = ClassInfo(qual, node.name, ctx.mod, bases, fid)
        info.node = node
        self.classes[qual] = info
        info.mro = self.c3(info)
        st.frames[fid] = {}
        c2 = Ctx(fid, ctx.mod, None, ctx.encl if ctx.info is None else (ctx.fid,) + ctx.encl, qual, node.name)
        outs = self.exec_block(node.body, st, c2, None, None)
        outs = [o for o in outs]
        if len(outs) != 1 or outs[0][1][0] != 'next':
            raise Undecided('class body of %s' % qual)
        st.become(outs[0][0])
        return ('cls', qual)

    def c3(self, info):
        def mro_of(b):
            if b[0] == 'cls':
                return list(self.classes[b[1]].mro)
            return [b] + ([('bi', 'object')] if b != ('bi', 'object') else [])
        seqs = [mro_of(b) for b in info.bases] + [list(info.bases)]
        if not info.bases:
            seqs = [[('bi', 'object')]]
        res = [('cls', info.qual)]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return tuple(res)
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Undecided('inconsistent MRO for ' + info.qual)
            res.append(c)
            for s in seqs:
                if s[0] == c:
                    del s[0]

    def class_of(self, st, v):
        k = v[0]
        if k == 'k':
            return ('bi', v[1]) if v[1] != 'NoneType' else ('ext', 'types.NoneType')
        if k == 'r':
            o = st.obj(v)
            if isinstance(o, InstO):
                return ('cls', o.cls)
            if isinstance(o, DictO):
                return ('bi', 'dict')
            if isinstance(o, SetO):
                return ('bi', 'set')
            if o.kind == 'list':
                return ('bi', 'list')
            return ('ext', 'types.GeneratorType')
        if k == 'tup':
            return ('bi', 'tuple')
        if k == 'cls':
            if any(c[0] in ('ext', 'cls') and c[1].endswith('MutableMapping') for c in self.classes[v[1]].mro):
                return ('ext', 'abc.ABCMeta')
            return ('bi', 'type')
        if k == 'exc':
            return v[1]
        if k == 'fn':
            return ('ext', 'types.FunctionType')
        if k == 'bm':
            return ('ext', 'types.MethodType')
        if k == 'bi':
            return ('bi', 'type') if v[1] in TYPE_NAMES else ('ext', 'types.BuiltinFunctionType')
        if k == 'dv':
            return ('ext', 'types.DictView')
        return None

    def isinstance_(self, st, v, c):
        if c[0] == 'tup':
            return any(self.isinstance_(st, v, x) for x in c[1])
        if c[0] == 'k' and c[1] == 'tuple':
            return False
        if v[0] == 't':
            if v[1] == 'dct':
                return c in (('bi', 'dict'), ('bi', 'object'))
            if v[1] == 'obj':
                r = self.is_subclass(('cls', v[2]), c)
                if r is not None:
                    return r
            name = self.type_name(c)
            return self.decide(st, ('isa', v, name))
        k = self.class_of(st, v)
        if c[0] == 't':
            return self.decide(st, ('isa', self.freeze(st, v), c))
        if k == ('ext', 'types.NoneType'):
            return c in (('ext', 'types.NoneType'), ('bi', 'object'))
        if k[0] == 'bi' and c[0] == 'ext' and c[1] in ABC_OF:
            return k[1] in ABC_OF[c[1]]
        if k[0] == 'cls' and c[0] == 'ext':
            if c in self.classes[k[1]].mro:
                return True
            if any(x[0] in ('ext', 'cls') and x[1].endswith('MutableMapping') for x in self.classes[k[1]].mro):
                return c[1].split('.')[-1] in ('MutableMapping', 'Mapping', 'Collection', 'Sized', 'Iterable', 'Container')
            return False
        if c[0] not in ('bi', 'cls', 'ext'):
            self.raise_(st, 'TypeError', K('isinstance() arg 2 must be a type'))
        if c[0] == 'bi' and c[1] not in TYPE_NAMES:
            self.raise_(st, 'TypeError', K('isinstance() arg 2 must be a type'))
        r = self.is_subclass(k, c)
        if r is None:
            return self.choose(2) == 0
        return r

    def type_name(self, c):
        if c[0] == 'bi':
            return c[1]
        if c[0] == 'cls':
            if c[1].endswith('.message.Message'):
                return 'Message'
            return c[1]
        return c[1]

    # ------------------------------------------------------------ attributes
    def getattr(self, st, v, name):
        k = v[0]
        if k == 'r':
            o = st.obj(v)
            if isinstance(o, InstO):
                return self.inst_attr(st, v, o, name)
            return ('bm', ('bi', type(o).__name__ + '.' + name), v)
        if k == 'cls':
            if name == '__name__':
                return K(self.classes[v[1]].name)
            if name == '__qualname__':
                return K(self.classes[v[1]].name)
            if name == '__module__':
                return K(self.classes[v[1]].mod)
            if name == '__mro__':
                return ('tup', self.classes[v[1]].mro)
            if name == '__bases__':
                return ('tup', tuple(self.classes[v[1]].bases))
            if name == '__doc__':
                return T('doc', v)
            a = self.find_attr(st, v[1], name)
            if a is None:
                if name == '__init__':
                    return ('bi', 'object.__init__')
                self.raise_(st, 'AttributeError', K(name))
            if a[0] == 'static':
                return a[1]
            if a[0] == 'clsm':
                return ('bm', a[1], v)
            return a
        if k == 'mod':
            r = st.frame('mod:' + v[1]).get(name)
            if r is None:
                sub = v[1] + '.' + name
                if sub in self.modules or self.module_exists(sub):
                    return ('mod', sub)
                if name == '__name__':
                    return K(v[1])
                self.raise_(st, 'AttributeError', K(name))
            return r
        if k == 'ext':
            return self.ext_attr(st, v, name)
        if k == 'super':
            return self.super_attr(st, v, name)
        if k == 'bi':
            if name == '__name__':
                return K(v[1].split('.')[-1])
            return ('bi', v[1] + '.' + name)
        if k == 'exc':
            if name == 'args':
                return ('tup', v[2])
            if v[1][0] == 'cls':
                m = self.find_attr(st, v[1][1], name)
                if m is not None and m[0] == 'fn':
                    return T('excattr', v[1], name)
            return T('excattr', v[1], name)
        if k == 'tup':
            return ('bm', ('bi', 'tuple.' + name), v)
        if k == 'k':
            if v[1] == 'NoneType':
                self.raise_(st, 'AttributeError', K(name))
            if v[1] in ('list', 'dict'):
                return ('bm', ('bi', {'list': 'ListO', 'dict': 'DictO'}[v[1]] + '.' + name), self.thaw(st, v))
            return ('bm', ('bi', v[1] + '.' + name), v)
        if k == 'dv':
            return ('bm', ('bi', 'dv.' + name), v)
        if k == 'prop':
            if name == 'setter':
                return ('propset', v)
            return v
        if k == 'fn':
            if name == '__name__':
                return K(self.funcs[v[1]].name)
            if name in ('__doc__', '__module__', '__qualname__'):
                return T('fnattr', v[1], name)
            self.raise_(st, 'AttributeError', K(name))
        if k == 'bm':
            if name == '__self__':
                return v[2]
            if name == '__func__':
                return v[1]
            return self.getattr(st, v[1], name)
        if k == 't':
            return self.term_attr(st, v, name)
        raise Undecided('attribute %s of %s' % (name, k))

    def thaw(self, st, v):
        if v[1] == 'list':
            return st.new(ListO(v[2]))
        return st.new(DictO())

    def term_attr(self, st, v, name):
        if v[1] == 'dct':
            return ('bm', ('bi', 'DictO.' + name), st.new(v[2]))
        if v[1] == 'obj':
            for a, x in v[3]:
                if a == name:
                    return x
            r = self.new_inst_from_term(st, v)
            return self.getattr(st, r, name)
        ty = st.facts.types(v)
        if ty and ty == {'NoneType'}:
            self.raise_(st, 'AttributeError', K(name))
        c = st.facts.const(v)
        if c is not None and c[1] == 'NoneType':
            self.raise_(st, 'AttributeError', K(name))
        if v[1] == 'urlparse' and name in ('scheme', 'netloc', 'path', 'params', 'query', 'fragment'):
            return T('urlpart', v[2], name)
        if name in TERM_DATA_ATTRS:
            h = TERM_DATA_ATTRS[name]
            if h is not True:
                r = h(self, st, v, name)
                if r is not None:
                    return r
            return T('attr', v, name)
        return ('bm', ('bi', 'term.' + name), v)

    def new_inst_from_term(self, st, v):
        attrs = {}
        for a, x in v[3]:
            attrs[a] = self.thaw_deep(st, x)
        return st.new(InstO(v[2], attrs))

    def thaw_deep(self, st, x):
        if x[0] == 't' and x[1] == 'dct':
            return st.new(x[2])
        if x == EMPTY_DICT:
            return st.new(DictO())
        return x

    def inst_attr(self, st, ref, o, name):
        info = self.classes.get(o.cls)
        a, owner = self.find_attr_owner(st, o.cls, name)
        if a is not None and a[0] == 'prop':
            return self.call(st, a[1], [ref], {})
        if name in o.attrs:
            return o.attrs[name]
        if a is not None:
            if a[0] in ('fn',):
                return ('bm', a, ref)
            if a[0] == 'static':
                return a[1]
            if a[0] == 'clsm':
                return ('bm', a[1], ('cls', o.cls))
            if a[0] == 'bi' and a[1].startswith('dict.') and '$dict' in o.attrs:
                return ('bm', ('bi', 'DictO.' + a[1][5:]), o.attrs['$dict'])
            if a == ('bi', 'object.__init__'):
                return ('bm', a, ref)
            return a
        if name == '__class__':
            return ('cls', o.cls)
        if name == '__dict__':
            return st.new(DictO(None, (), {K(n): x for n, x in o.attrs.items() if n[0] != '$'}))
        if '$dict' in o.attrs:
            return ('bm', ('bi', 'DictO.' + name), o.attrs['$dict'])
        if '$open' in o.attrs:         # instance with unknown attributes
            return T('attr', o.attrs['$open'], name)
        g = self.find_attr(st, o.cls, '__getattr__')
        if g is not None:
            return self.call(st, ('bm', g, ref), [K(name)], {})
        self.raise_(st, 'AttributeError', K(name))

    def super_attr(self, st, v, name):
        _, qual, self_ = v
        if self_[0] == 'cls':
            rt = self_[1]
        else:
            rt = st.obj(self_).cls
        a, owner = self.find_attr_owner(st, rt, name, after=qual)
        if a is None:
            if name in ('__init__', '__setattr__', '__init_subclass__'):
                return ('bi', 'object.' + name)
            self.raise_(st, 'AttributeError', K(name))
        if a[0] == 'fn':
            return ('bm', a, self_)
        if a[0] == 'static':
            return a[1]
        if a[0] == 'clsm':
            return ('bm', a[1], ('cls', rt))
        if a[0] == 'prop':
            return self.call(st, a[1], [self_], {})
        if a[0] == 'bi' and a[1].startswith('dict.'):
            return ('bm', ('bi', 'DictO.' + a[1][5:]), st.obj(self_).attrs['$dict'])
        if a[0] == 'bi' and a[1] == 'object.__init__':
            return ('bm', a, self_)
        return a

    def setattr(self, st, v, name, x):
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, InstO):
                a = self.find_attr(st, o.cls, name)
                if a is not None and a[0] == 'prop':
                    if a[2] is None:
                        self.raise_(st, 'AttributeError', K(name))
                    self.call(st, a[2], [v, x], {})
                    return
                st.setobj(v, o.set(name, x))
                return
        if v[0] == 'cls':
            self.world_write(st, ('class attribute', v[1], name))
            st.setl(self.classes[v[1]].fid, name, x)
            return
        if v[0] == 'mod':
            st.setl('mod:' + v[1], name, x)
            return
        if v[0] == 't':
            self.on_ext_setattr(st, v, name, x)
            return
        if v[0] == 'fn':
            return
        if v[0] == 'exc':
            return
        self.raise_(st, 'AttributeError', K(name))

    def on_ext_setattr(self, st, v, name, x):
        h = self.hooks.get('setattr')
        if h:
            h(self, st, v, name, x)

    def world_write(self, st, what):
        h = self.hooks.get('world_write')
        if h:
            h(self, st, what)

    # ------------------------------------------------------------ calls
    MAXDEPTH = 60

    def call(self, st, f, args, kwargs, node=None, star=None):
        """args: list of values, kwargs: dict name->value or ('maybe', ...) entries; star: DictO passed as **kwargs"""
        k = f[0]
        if k == 'bm':
            g, self_ = f[1], f[2]
            if g[0] == 'fn':
                return self.call_fn(st, g, [self_] + args, kwargs, node, star)
            if g[0] == 'bi':
                return self.call_builtin(st, g[1], [self_] + args, self.kw(st, kwargs, star), node)
            return self.call(st, g, [self_] + args, kwargs, node, star)
        if k == 'fn':
            return self.call_fn(st, f, args, kwargs, node, star)
        if k == 'cls':
            return self.instantiate(st, f, args, kwargs, node, star)
        if k == 'bi':
            import builtins
            b = getattr(builtins, f[1], None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return ('exc', f, tuple(args), self.where())
            return self.call_builtin(st, f[1], args, self.kw(st, kwargs, star), node)
        if k == 'ext':
            return self.call_ext(st, f[1], args, self.kw(st, kwargs, star), node)
        if k == 'static':
            return self.call(st, f[1], args, kwargs, node, star)
        if k == 'spec':
            return self.spec_fns[f[1]](self, st, args, self.kw(st, kwargs, star))
        if k == 'r':
            o = st.obj(f)
            if isinstance(o, InstO):
                m = self.find_attr(st, o.cls, '__call__')
                if m is not None:
                    return self.call(st, ('bm', m, f), args, kwargs, node, star)
        if k == 't':
            if f[1] == 'meth':
                return self.call_builtin(st, 'term.' + f[3], [f[2]] + args, self.kw(st, kwargs, star), node)
            return self.call_term(st, f, args, self.kw(st, kwargs, star), node)
        if k == 'k':
            self.raise_(st, 'TypeError', K('not callable'))
        if k == 'partial':
            kw = dict(f[3])
            kw.update(kwargs)
            return self.call(st, f[1], list(f[2]) + args, kw, node, star)
        self.raise_(st, 'TypeError', K('not callable'))

    def kw(self, st, kwargs, star):
        if star is None:
            return kwargs
        kw = dict(kwargs)
        if star.base is not None or star.layers or sum(1 for e in star.conc.values() if e[0] == 'ite') > 3:
            kw['**'] = star
            return kw
        for key, e in star.conc.items():
            r = self.entry(st, e)
            if r not in (MISS, DEL):
                kw[key[2]] = r
        return kw

    def call_term(self, st, f, args, kwargs, node):
        h = self.hooks.get('call_term')
        if h:
            r = h(self, st, f, args, kwargs, node)
            if r is not None:
                return r
        return T('call', f, tuple(self.freeze(st, a) for a in args), self.fzkw(st, kwargs))

    def fzkw(self, st, kwargs):
        return tuple(sorted(((k, self.freeze(st, v)) if not isinstance(v, DictO) else (k, T('dct', v)) for k, v in kwargs.items()),
                            key=lambda x: x[0]))

    def instantiate(self, st, f, args, kwargs, node, star):
        qual = f[1]
        info = self.classes[qual]
        h = self.hooks.get('new:' + qual)
        if h:
            r = h(self, st, args, kwargs, star, node)
            if r is not None:
                return r
        if any(c[0] == 'bi' and self.is_subclass(c, ('bi', 'BaseException')) for c in info.mro):
            if star is not None:
                kwargs = self.kw(st, kwargs, star)
            return ('exc', f, tuple(args), self.where())
        attrs = {}
        if ('bi', 'dict') in info.mro:
            attrs['$dict'] = st.new(DictO())
        ref = st.new(InstO(qual, attrs))
        init = self.find_attr(st, qual, '__init__')
        if init is not None and init[0] == 'fn':
            self.call_fn(st, init, [ref] + args, kwargs, node, star)
        elif '$dict' in attrs:
            self.call_builtin(st, 'DictO.__init__', [attrs['$dict']] + args, self.kw(st, kwargs, star), node)
        elif args or kwargs or (star is not None and star.conc):
            self.raise_(st, 'TypeError', K('takes no arguments'))
        return ref

    # binding of arguments of analysed functions
    def bind(self, st, f, args, kwargs, star):
        _, key, encl, defaults, kwdefaults = f
        info = self.funcs[key]
        loc = {}
        npos = len(info.pos)
        pos = list(args)
        if len(pos) > npos:
            if info.vararg is None:
                self.raise_(st, 'TypeError', K('too many positional arguments for ' + info.name))
            loc[info.vararg] = ('tup', tuple(pos[npos:]))
            pos = pos[:npos]
        elif info.vararg is not None:
            loc[info.vararg] = ('tup', ())
        for n, v in zip(info.pos, pos):
            loc[n] = v
        rest = dict(kwargs)
        extra = star
        dmap = dict(zip(info.pos[npos - len(defaults):], defaults)) if defaults else {}
        dmap.update(dict(kwdefaults))
        for n in info.pos[len(pos):] + info.kwonly:
            if n in rest:
                loc[n] = rest.pop(n)
                if extra is not None and self.dict_get(st, extra, K(n)) is not MISS:
                    self.name_clash(extra, n)
                    self.raise_(st, 'TypeError', K('multiple values for ' + n))
                continue
            if extra is not None:
                v = self.dict_get(st, extra, K(n))
                if v is not MISS:
                    loc[n] = v
                    extra = extra.put(K(n), DEL) if extra.base is not None or extra.layers else DictO(None, (), {a: b for a, b in extra.conc.items() if a != K(n)})
                    continue
                elif extra.conc.get(K(n)) is not None:
                    extra = DictO(extra.base, extra.layers, {a: b for a, b in extra.conc.items() if a != K(n)})
            if n in dmap:
                loc[n] = dmap[n]
            else:
                self.raise_(st, 'TypeError', K('missing argument %s of %s' % (n, info.name)))
        for n in info.pos[:len(pos)]:
            if n in rest:
                self.raise_(st, 'TypeError', K('multiple values for %s in call of %s' % (n, info.name)))
            if extra is not None and self.dict_get(st, extra, K(n)) is not MISS:
                self.name_clash(extra, n)
                self.raise_(st, 'TypeError', K('multiple values for %s in call of %s' % (n, info.name)))
        if info.kwarg is not None:
            d = extra if extra is not None else DictO()
            for n, v in rest.items():
                d = d.put(K(n), v)
            loc[info.kwarg] = st.new(d)
        else:
            if rest:
                self.raise_(st, 'TypeError', K('unexpected keyword %s in call of %s' % (sorted(rest)[0], info.name)))
            if extra is not None and self.dict_nonempty(st, extra):
                self.raise_(st, 'TypeError', K('unexpected keyword in call of %s' % info.name))
        return info, loc

    def call_fn(self, st, f, args, kwargs, node=None, star=None):
        _, key, encl, defaults, kwdefaults = f
        info0 = self.funcs[key]
        h = self.key_hooks.get(key) or self.fn_hooks.get(info0.qual)
        if h is not None and self.skip_hook == key:
            self.skip_hook = h = None
        if h is not None:
            r = h(self, st, f, args, kwargs, star, node)
            if r is not None:
                return r
        self.funcs_seen.add(info0.module + ':' + info0.qual)
        self.calls_seen += 1
        depth = len(self.stack)
        if depth > self.MAXDEPTH:
            raise Undecided('call depth exceeded in ' + info0.qual)
        rec = sum(1 for c in self.stack if c.info is info0)
        if rec > 4:
            return self.recursion(st, f, args, kwargs, star, node)

        def thunk(s0):
            outs0 = self.explore(s0, lambda s: self.bind(s, f, args, kwargs, star))
            res = []
            base = s0.nid
            for s, kind, v in outs0:
                if kind == 'exc':
                    res.append((s, kind, v))
                    continue
                info, loc = v
                res.extend(self.run_body(s, info, loc, encl, base))
            if info0.module[:5] == 'spec_':
                return res
            return self.merge_returns(res, base)
        return self.memo(st, thunk)

    def recursion(self, st, f, args, kwargs, star, node):
        raise Undecided('recursion in ' + self.funcs[f[1]].qual)

    def run_body(self, s, info, loc, encl, base):
        fid = s.nid
        s.nid += 1
        if info.is_gen:
            loc = dict(loc)
            loc['$yield'] = s.new(ListO((), 'generator'))
        s.frames[fid] = loc
        ctx = Ctx(fid, info.module, info, encl, info.cls, info.qual)
        self.stack.append(ctx)
        saved = self.node
        try:
            if isinstance(info.node, ast.Lambda):
                outs = [(a, ('ret', v) if k == 'val' else ('exc', v)) for a, k, v in self.explore(s, lambda z: self.ev(info.node.body, z, ctx))]
            else:
                live = frozenset(['$yield']) if not info.has_nested else None
                outs = self.exec_block(info.node.body, s, ctx, live, None)
        finally:
            self.stack.pop()
            self.node = saved
        res = []
        for a, comp in outs:
            if comp[0] == 'exc':
                r = (a, 'exc', comp[1])
            else:
                v = comp[1] if comp[0] == 'ret' else NONE
                if info.is_gen:
                    v = a.getl(fid, '$yield')
                r = (a, 'val', v)
            if not info.has_nested:
                a.frames.pop(fid, None)
            res.append(r)
        return res

    def name_clash(self, extra, n):
        """unknown keyword arguments are assumed not to bear the name of an argument given otherwise"""
        if K(n) not in extra.conc:
            raise Infeasible()

    def merge_returns(self, res, base):
        if len(res) < 2:
            return res
        outs = [(s, ('ret', v) if k == 'val' else ('exc', v)) for s, k, v in res]
        outs = self.merge(outs, None, None, base)
        return [(s, 'val' if c[0] == 'ret' else 'exc', c[1]) for s, c in outs]

    # ------------------------------------------------------------ iteration
    def src_term(self, src):
        """term of a collection that is exactly an unknown value"""
        if isinstance(src, DictO):
            return src.base if not src.layers and not src.conc else None
        return src

    def norm_items(self, st, items):
        """generated segments over a collection known to have one element consist of that element"""
        if not any(i[0] == 'gen' and not i[3] for i in items):
            return items
        res = []
        for i in items:
            if i[0] == 'gen' and not i[3]:
                c = self.src_term(i[2])
                if c is not None:
                    n = st.facts.const(T('len', c))
                    if n is not None and n[2] == 1:
                        w = self.only(st, c)
                        i = self.resolve(st, subst(i[4], i[1], w))
                    elif n is not None and n[2] == 0:
                        continue
            res.append(i)
        return tuple(res)

    def only(self, st, c):
        w = T('only', c)
        known = st.facts.const(w)
        if known is not None:
            return known
        for x in self.witnesses(st, c):
            if x[0] == 'k':
                self.assume(st, mk_one(w, [x]), True)
                return x
        self.assume(st, ('in', w, c), True)
        return w

    def not_iterator(self, st, v):
        if v[0] in ('k', 'tup', 'dv'):
            return True
        return v[0] == 'r' and (isinstance(st.obj(v), DictO) or type(st.obj(v)) is ListO and st.obj(v).kind == 'list')

    def iterate(self, st, v):
        return self.norm_items(st, self.iterate0(st, v))

    def iterate0(self, st, v):
        """value -> tuple of pieces: value | ('gen', e, src, conds, elt) | ('maybe', atom, val, value)"""
        k = v[0]
        if k == 'tup':
            return v[1]
        if k == 'k':
            if v[1] == 'str':
                return tuple(K(c) for c in v[2])
            if v[1] in ('list', 'tuple'):
                return v[2]
            if v[1] == 'dict':
                return ()
            self.raise_(st, 'TypeError', K('not iterable'))
        if k == 'r':
            o = st.obj(v)
            if isinstance(o, ListO):
                return o.items
            if isinstance(o, DictO):
                return self.view_pieces(st, ('dv', 'keys', o))
            if isinstance(o, InstO):
                m = self.find_attr(st, o.cls, '__iter__')
                if m is not None:
                    it = self.call(st, ('bm', m, v), [], {})
                    if m[0] != 'bi' and self.not_iterator(st, it):
                        self.raise_(st, 'TypeError', K('iter() returned a non-iterator'))
                    return self.iterate(st, it)
                if '$dict' in o.attrs:
                    return self.iterate(st, o.attrs['$dict'])
            self.raise_(st, 'TypeError', K('not iterable'))
        if k == 'dv':
            return self.view_pieces(st, v)
        if k == 't':
            if v[1] == 'dct':
                return self.view_pieces(st, ('dv', 'keys', v[2]))
            if v[1] == 'listof' and isinstance(v[2], tuple) and v[2][0] == 't':
                return self.iterate(st, v[2])
            if v[1] == 'listof':
                return (v[2],)
            if v[1] == 'lst':
                return v[3]
            c = st.facts.const(v)
            if c is not None:
                return self.iterate(st, c)
            ty = st.facts.types(v)
            if ty and ty <= {'int', 'bool', 'NoneType', 'float'}:
                self.raise_(st, 'TypeError', K('not iterable'))
            if v[1] == 'dv':
                return self.view_pieces(st, ('dv', v[2], v[3]))
            e = T('elem', 'x', v)
            return (('gen', e, v, (), e),)
        if k in ('ext', 'bi'):
            e = T('elem', 'x', v)
            return (('gen', e, T('v', v), (), e),)
        if k == 'cls':
            self.raise_(st, 'TypeError', K('not iterable'))
        raise Undecided('iteration over %s' % k)

    def view_pieces(self, st, v):
        _, mode, o = v
        out = []

        def mk(key, val):
            if mode == 'keys':
                return key
            if mode == 'values':
                return val
            return ('tup', (key, val))
        if o.base is not None or o.layers:
            self.phi_n += 1
            e = T('elem', 'd', self.phi_n)
            src = DictO(o.base, o.layers, {})
            conds = ()
            cks = [k for k in o.conc]
            if cks:
                consts = [k for k in cks if k[0] == 'k']
                if consts:
                    conds = ((('one', e, frozenset(consts)), False),)
                for k in cks:
                    if k[0] == 't':
                        conds += ((mk_eq(e, k), False),)
            # value of the generic element
            out.append(('gen', e, src, conds, mk(e, T('dval', src, e) if src.layers else self.item_term(st, src.base, e))))
        for k, en in o.conc.items():
            if en in (DEL, MISS):
                continue
            if en[0] == 'ite':
                out.append(('dmaybe', k, en, mode, o))
                continue
            out.append(mk(k, en))
        # flatten guarded entries
        res = []
        for p in out:
            if p[0] == 'dmaybe':
                _, k, en, mode_, o_ = p
                if en[2] in (MISS,) or en[3] in (MISS,):
                    r = self.dict_get(st, o_, k)
                    if r is not MISS:
                        res.append(mk(k, r))
                else:
                    self._flat_ite(st, k, en, mk, res, ())
            else:
                res.append(p)
        return tuple(res)

    def _flat_ite(self, st, k, en, mk, res, path):
        if en == DEL:
            return
        if en[0] == 'ite':
            d = st.facts.decide(en[1])
            if d is not None:
                self._flat_ite(st, k, en[2] if d else en[3], mk, res, path)
                return
            if en[2] == DEL and en[3][0] != 'ite':
                res.append(('maybe', en[1], False, mk(k, en[3])))
                return
            if en[3] == DEL and en[2][0] != 'ite':
                res.append(('maybe', en[1], True, mk(k, en[2])))
                return
            r = self.entry(st, en)
            if r not in (DEL, MISS):
                res.append(mk(k, r))
            return
        res.append(mk(k, en))


TYPE_NAMES = {'int', 'str', 'bool', 'float', 'list', 'dict', 'tuple', 'set', 'frozenset', 'bytes', 'bytearray', 'object', 'type', 'complex', 'Exception',
              'BaseException', 'KeyError', 'ValueError', 'TypeError', 'AttributeError', 'property'}
ABC_OF = {'collections.abc.Mapping': {'dict'}, 'collections.abc.MutableMapping': {'dict'}, 'collections.abc.Sequence': {'list', 'tuple', 'str', 'bytes'},
          'collections.abc.Iterable': {'list', 'tuple', 'str', 'dict', 'set', 'bytes'}, 'collections.abc.MutableSequence': {'list'},
          'collections.abc.Set': {'set', 'frozenset'}, 'collections.abc.Collection': {'list', 'tuple', 'str', 'dict', 'set', 'bytes'},
          'collections.abc.Sized': {'list', 'tuple', 'str', 'dict', 'set', 'bytes'}, 'collections.abc.Container': {'list', 'tuple', 'str', 'dict', 'set', 'bytes'}}
EXT_BASES = {
    'cryptojwt.jws.exception.NoSuitableSigningKeys': (('bi', 'Exception'), ('bi', 'BaseException')),
    'cryptojwt.exception.UnsupportedAlgorithm': (('bi', 'Exception'), ('bi', 'BaseException')),
    'cryptojwt.exception.BadSignature': (('bi', 'Exception'), ('bi', 'BaseException')),
    'json.JSONDecodeError': (('bi', 'ValueError'), ('bi', 'Exception'), ('bi', 'BaseException')),
}
TERM_DATA_ATTRS = {}
