"""Models of builtins."""
import ast
from .loops import *

STR_CONST = {'split', 'rsplit', 'splitlines', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'join', 'isdigit', 'find',
             'rfind', 'index', 'count', 'title', 'capitalize', 'isalpha', 'isalnum', 'isupper', 'islower', 'partition', 'rpartition', 'zfill', 'ljust', 'rjust', 'isspace',
             'encode', 'decode', 'casefold', 'isidentifier', 'removeprefix', 'removesuffix', 'swapcase', 'center', 'isnumeric', 'isdecimal', 'isascii', 'isprintable', 'hex'}


PYTYPES = {'DictO': dict, 'dict': dict, 'list': list, 'ListO': list, 'tuple': tuple, 'tup': tuple, 'bool': bool, 'float': float}


class Models(Loops):

    def call_builtin(self, st, name, args, kw, node):
        if '.' in name:
            cls, m = name.split('.', 1)
            f = getattr(self, 'b_%s_%s' % (cls.replace('$', ''), m), None)
            if f is not None:
                return f(st, args, kw)
            f = getattr(self, 'bm_' + cls, None)
            if f is not None:
                return f(st, m, args, kw)
            if cls in PYTYPES and not hasattr(PYTYPES[cls], m):
                self.raise_(st, 'AttributeError', K(m))
            raise Undecided('builtin method ' + name)
        f = getattr(self, 'b_' + name, None)
        if f is None:
            raise Undecided('builtin ' + name)
        return f(st, args, kw)

    # ------------------------------------------------------------ object
    def b_object___init__(self, st, args, kw):
        return NONE

    def b_object___setattr__(self, st, args, kw):
        self.setattr(st, args[0], args[1][2], args[2])
        return NONE

    def b_object___init_subclass__(self, st, args, kw):
        return NONE

    def b_object___new__(self, st, args, kw):
        return st.new(InstO(args[0][1], {}))

    def b_object(self, st, args, kw):
        return T('sentinel', self.node.lineno if self.node is not None else 0)

    def b_super(self, st, args, kw):
        raise Undecided('super')

    # ------------------------------------------------------------ dict
    def b_dict(self, st, args, kw):
        r = st.new(DictO())
        self.b_DictO_update(st, [r] + args, kw)
        return r

    def b_DictO___init__(self, st, args, kw):
        return self.b_DictO_update(st, args, kw)

    def bm_dict(self, st, m, args, kw):
        """dict.method(x, ...)"""
        if m == 'fromkeys':
            d = DictO()
            for i in self.iterate(st, args[0]):
                if i[0] in ('gen', 'maybe'):
                    raise Undecided('dict.fromkeys of unknown')
                d = d.put(self.key(st, i), args[1] if len(args) > 1 else NONE)
            return st.new(d)
        x = args[0]
        if x[0] == 'r' and isinstance(st.obj(x), InstO) and '$dict' in st.obj(x).attrs:
            x = st.obj(x).attrs['$dict']
        return self.call_builtin(st, 'DictO.' + m, [x] + args[1:], kw, self.node)

    def b_DictO_update(self, st, args, kw):
        r = args[0]
        if len(args) > 1:
            src = args[1]
            d = self.mapping(st, src)
            if d is not None:
                st.setobj(r, self.dict_update(st.obj(r), d, st))
            else:
                its = self.iterate(st, src)
                for i in its:
                    if i[0] == 'gen':
                        _, e, s, conds, elt = i
                        if elt[0] == 'tup' and len(elt[1]) == 2 and elt[1][0] == e:
                            v = elt[1][1]
                            cases = (((conds), ('set', v)),)
                            cases = self.complete(cases, conds, ())
                            st.setobj(r, st.obj(r).push(('each', e, s, cases)))
                            continue
                        st.setobj(r, st.obj(r).push(('havoc', T('fromgen', i))))
                        continue
                    if i[0] == 'maybe':
                        if not self.decide_lit(st, i[1], i[2]):
                            continue
                        i = i[3]
                    k, v = self.unpack(st, i, 2)
                    st.setobj(r, self.dput(st, st.obj(r), self.key(st, k), v))
        for k, v in kw.items():
            if k == '**':
                st.setobj(r, self.dict_update(st.obj(r), v, st))
            else:
                st.setobj(r, st.obj(r).put(K(k), v))
        return NONE

    def mapping(self, st, v):
        """DictO for anything that behaves as a mapping, else None"""
        d = self.as_dict_strict(st, v)
        if d is not None:
            return d
        if v[0] == 'r' and isinstance(st.obj(v), InstO):
            m = self.find_attr(st, st.obj(v).cls, 'keys')
            if m is not None:
                out = DictO()
                for k in self.iterate(st, self.call(st, self.getattr(st, v, 'keys'), [], {})):
                    if k[0] in ('gen', 'maybe'):
                        return DictO(None, (('havoc', T('mapping', self.freeze(st, v))),), {})
                    out = out.put(self.key(st, k), self.getitem(st, v, k))
                return out
        return None

    def as_dict_strict(self, st, v):
        if v[0] == 't':
            if v[1] == 'dct':
                return v[2]
            if v[1] in ('listof', 'lst', 'zip'):
                return None
            ty = st.facts.types(v)
            if ty and not (ty & {'dict', 'Message', 'object'}):
                return None
            return DictO(v)
        return self.as_dict(st, v)

    def b_DictO_get(self, st, args, kw):
        r = self.dict_get(st, st.obj(args[0]), self.key(st, args[1]))
        if r is MISS:
            return args[2] if len(args) > 2 else kw.get('default', NONE)
        return r

    def b_DictO___getitem__(self, st, args, kw):
        return self.getitem(st, args[0], args[1])

    def b_DictO___setitem__(self, st, args, kw):
        self.setitem(st, args[0], args[1], args[2])
        return NONE

    def b_DictO___delitem__(self, st, args, kw):
        self.delitem(st, args[0], args[1])
        return NONE

    def b_DictO___contains__(self, st, args, kw):
        return TRUE if self.contains(st, args[1], args[0]) else FALSE

    def b_DictO___len__(self, st, args, kw):
        return self.b_len(st, args, kw)

    def b_DictO___iter__(self, st, args, kw):
        return ('dv', 'keys', st.obj(args[0]))

    def b_DictO___eq__(self, st, args, kw):
        return TRUE if self.equal(st, args[0], args[1]) else FALSE

    def b_DictO_has_key(self, st, args, kw):
        self.raise_(st, 'AttributeError', K('has_key'))

    def b_DictO_keys(self, st, args, kw):
        return ('dv', 'keys', st.obj(args[0]))

    def b_DictO_values(self, st, args, kw):
        return ('dv', 'values', st.obj(args[0]))

    def b_DictO_items(self, st, args, kw):
        return ('dv', 'items', st.obj(args[0]))

    def b_DictO_copy(self, st, args, kw):
        return st.new(st.obj(args[0]))

    def b_DictO_clear(self, st, args, kw):
        st.setobj(args[0], DictO())
        return NONE

    def b_DictO_pop(self, st, args, kw):
        k = self.key(st, args[1])
        r = self.dict_get(st, st.obj(args[0]), k)
        if r is MISS:
            if len(args) > 2:
                return args[2]
            self.raise_(st, 'KeyError', k)
        self.delitem(st, args[0], k)
        return r

    def b_DictO_popitem(self, st, args, kw):
        raise Undecided('popitem')

    def b_DictO_setdefault(self, st, args, kw):
        k = self.key(st, args[1])
        r = self.dict_get(st, st.obj(args[0]), k)
        if r is not MISS:
            return r
        v = args[2] if len(args) > 2 else NONE
        st.setobj(args[0], self.dput(st, st.obj(args[0]), k, v))
        return v

    # views
    def bm_dv(self, st, m, args, kw):
        v = args[0]
        if m == '__iter__':
            return v
        if m == 'isdisjoint':
            return FALSE if self.truth(st, self.set_and(st, v, args[1])) else TRUE
        if m in ('difference', 'intersection', 'union'):
            return self.bm_SetO(st, m, args, kw)
        if m == '__contains__':
            return TRUE if self.contains(st, args[1], v) else FALSE
        raise Undecided('view method ' + m)

    # ------------------------------------------------------------ list / set / tuple
    def b_list(self, st, args, kw):
        if not args:
            return st.new(ListO())
        return st.new(ListO(self.iterate(st, args[0])))

    def b_tuple(self, st, args, kw):
        if not args:
            return ('tup', ())
        its = self.iterate(st, args[0])
        if any(i[0] in ('gen', 'maybe') for i in its):
            return st.new(ListO(its))
        return ('tup', tuple(its))

    def b_set(self, st, args, kw):
        if not args:
            return st.new(SetO(()))
        return st.new(SetO(self.iterate(st, args[0])))

    b_frozenset = b_set

    def bm_ListO(self, st, m, args, kw):
        r = args[0]
        if r[0] != 'r':
            self.raise_(st, 'TypeError')
        o = st.obj(r)
        a = args[1:]
        if m == 'append':
            st.setobj(r, ListO(o.items + (a[0],), o.kind))
            return NONE
        if m in ('extend', '__iadd__'):
            st.setobj(r, ListO(o.items + tuple(self.iterate(st, a[0])), o.kind))
            return NONE
        if m == 'insert':
            if a[0] == K(0):
                st.setobj(r, ListO((a[1],) + o.items, o.kind))
            else:
                its = list(o.items)
                its.insert(a[0][2] if a[0][0] == 'k' else len(its), a[1])
                st.setobj(r, ListO(its, o.kind))
            return NONE
        if m == 'copy':
            return st.new(ListO(o.items))
        if m == 'clear':
            st.setobj(r, ListO((), o.kind))
            return NONE
        if m == 'remove':
            if not self.contains(st, a[0], r):
                self.raise_(st, 'ValueError')
            its = list(o.items)
            for i, x in enumerate(its):
                if x[0] in ('gen', 'maybe'):
                    e = T('elem', 'rm', st.nid)
                    st.nid += 1
                    p = T('removed', self.freeze(st, r), self.freeze(st, a[0]))
                    st.setobj(r, ListO((('gen', e, p, (), e),), o.kind))
                    return NONE
                if self.equal(st, x, a[0]):
                    del its[i]
                    st.setobj(r, ListO(its, o.kind))
                    return NONE
            self.raise_(st, 'ValueError')
        if m == 'pop':
            its = list(o.items)
            i = a[0] if a else K(-1)
            if i[0] == 'k' and not any(x[0] in ('gen', 'maybe') for x in its):
                try:
                    x = its.pop(i[2])
                except IndexError:
                    self.raise_(st, 'IndexError')
                st.setobj(r, ListO(its, o.kind))
                return x
            if i[0] == 'k' and its and i[2] in (0, -1) and its[i[2]][0] not in ('gen', 'maybe'):
                x = its.pop(i[2])
                st.setobj(r, ListO(its, o.kind))
                return x
            if not self.truth(st, r):
                self.raise_(st, 'IndexError')
            x = self.list_index(st, o.items, i)
            e = T('elem', 'rm', st.nid)
            st.nid += 1
            p = T('removed', self.freeze(st, r), i)
            st.setobj(r, ListO((('gen', e, p, (), e),), o.kind))
            return x
        if m == 'sort':
            return NONE
        if m == 'reverse':
            st.setobj(r, ListO(tuple(reversed(o.items)), o.kind))
            return NONE
        if m == 'index':
            if not self.contains(st, a[0], r):
                self.raise_(st, 'ValueError')
            return T('index', self.freeze(st, r), self.freeze(st, a[0]))
        if m == 'count':
            return T('count', self.freeze(st, r), self.freeze(st, a[0]))
        if m in ('__iter__',):
            return r
        if m == '__contains__':
            return TRUE if self.contains(st, a[0], r) else FALSE
        if m == '__len__':
            return self.b_len(st, [r], {})
        if m == '__getitem__':
            return self.getitem(st, r, a[0])
        if m == '__setitem__':
            self.setitem(st, r, a[0], a[1])
            return NONE
        if m == '__next__':
            return self.b_next(st, [r], {})
        if m in DICT_METHODS or m in STR_CONST:
            self.raise_(st, 'AttributeError', K(m))
        raise Undecided('list method ' + m)

    def bm_SetO(self, st, m, args, kw):
        r = args[0]
        a = args[1:]
        o = st.obj(r) if r[0] == 'r' else None
        if m == 'add':
            st.setobj(r, SetO(o.items + (a[0],)))
            return NONE
        if m == 'update':
            its = o.items
            for x in a:
                its = its + tuple(self.iterate(st, x))
            st.setobj(r, SetO(its))
            return NONE
        if m in ('discard', 'remove'):
            if not self.contains(st, a[0], r):
                if m == 'remove':
                    self.raise_(st, 'KeyError')
                return NONE
            if any(x[0] in ('gen', 'maybe') for x in o.items):
                its = []
                for x in o.items:
                    if x[0] == 'gen':
                        its.append(('gen', x[1], x[2], x[3] + ((mk_eq(x[4], a[0]), False),), x[4]))
                    else:
                        its.append(x)
                st.setobj(r, SetO(its))
                return NONE
            st.setobj(r, SetO(tuple(x for x in o.items if not self.equal(st, x, a[0]))))
            return NONE
        if m == 'difference':
            for x in a:
                r = self.set_diff(st, r, x)
            return r
        if m == 'intersection':
            for x in a:
                r = self.set_and(st, r, x)
            return r
        if m == 'union':
            its = tuple(self.iterate(st, r))
            for x in a:
                its = its + tuple(self.iterate(st, x))
            return st.new(SetO(its))
        if m == 'issubset':
            return FALSE if self.exists_not_in(st, r, a[0]) else TRUE
        if m == 'issuperset':
            return FALSE if self.exists_not_in(st, a[0], r) else TRUE
        if m == 'isdisjoint':
            return FALSE if self.truth(st, self.set_and(st, r, a[0])) else TRUE
        if m == 'copy':
            return st.new(SetO(o.items))
        if m == 'clear':
            st.setobj(r, SetO(()))
            return NONE
        if m == '__contains__':
            return TRUE if self.contains(st, a[0], r) else FALSE
        if m == 'pop':
            its = [x for x in o.items]
            if not its:
                self.raise_(st, 'KeyError')
            if its[0][0] in ('gen', 'maybe'):
                raise Undecided('set.pop')
            st.setobj(r, SetO(its[1:]))
            return its[0]
        raise Undecided('set method ' + m)

    def set_diff(self, st, a, b):
        """elements of a that are not in b"""
        its = []
        for x in self.iterate(st, a):
            if x[0] == 'gen':
                its.append(self.filter_gen(st, x, b, False))
            elif x[0] == 'maybe':
                if self.decide_lit(st, x[1], x[2]) and not self.contains(st, x[3], b):
                    its.append(x[3])
            elif not self.contains(st, x, b):
                its.append(x)
        return st.new(SetO([i for i in its if i is not None]))

    def set_and(self, st, a, b):
        ia, ib = self.iterate(st, a), self.iterate(st, b)
        if any(x[0] == 'gen' for x in ia) and not any(x[0] == 'gen' for x in ib):
            ia, ib, a, b = ib, ia, b, a
        its = []
        for x in ia:
            if x[0] == 'gen':
                its.append(self.filter_gen(st, x, b, True))
            elif x[0] == 'maybe':
                if self.decide_lit(st, x[1], x[2]) and self.contains(st, x[3], b):
                    its.append(x[3])
            else:
                ats = self.member_atoms(st, x, b) if len(ia) > 4 else None
                if ats is not None and len(ats) == 1 and ats[0][0] != 'const' and st.facts.decide(ats[0]) is None:
                    its.append(('maybe', ats[0], True, x))
                elif self.contains(st, x, b):
                    its.append(x)
        return st.new(SetO([i for i in its if i is not None]))

    def filter_gen(self, st, g, b, want):
        """restrict a generated segment to members / non-members of b"""
        _, e, src, conds, elt = g
        atoms = self.member_atoms(st, elt, b)
        if atoms is None:
            raise Undecided('membership of generated elements')
        if not want:
            for a in atoms:
                conds = conds + ((a, False),)
            return ('gen', e, src, conds, elt)
        if len(atoms) == 0:
            return None
        if len(atoms) == 1:
            return ('gen', e, src, conds + ((atoms[0], True),), elt)
        raise Undecided('intersection of generated elements')

    def member_atoms(self, st, x, b):
        """x in b as a disjunction of atoms"""
        k = b[0]
        if k == 't':
            if b[1] == 'listof':
                return self.member_atoms(st, x, b[2]) if b[2][0] == 't' else None
            if b[1] == 'dct':
                return None if b[2].layers or b[2].conc else [('in', x, b[2].base)]
            return [('in', x, b)]
        if k == 'k' and b[1] == 'str':
            return [mk_one(x, [K(c) for c in b[2]])]
        its = self.iterate(st, b)
        consts = []
        r = []
        for i in its:
            if i[0] == 'gen':
                if i[3] or i[4] != i[1] or not isinstance(i[2], tuple):
                    if i[4] == i[1] and isinstance(i[2], DictO) and not i[2].layers and not i[2].conc and not i[3]:
                        r.append(('in', x, i[2].base))
                        continue
                    return None
                r.append(('in', x, i[2]))
            elif i[0] == 'k':
                consts.append(i)
            elif i[0] == 't':
                r.append(mk_eq(x, i))
            else:
                return None
        if consts:
            r.insert(0, mk_one(x, consts))
        return r

    def bm_tuple(self, st, m, args, kw):
        if m in ('index', 'count'):
            return T(m, self.freeze(st, args[0]), self.freeze(st, args[1]))
        if m == '__contains__':
            return TRUE if self.contains(st, args[1], args[0]) else FALSE
        self.raise_(st, 'AttributeError', K(m))

    # ------------------------------------------------------------ strings
    def bm_str(self, st, m, args, kw):
        s = args[0]
        a = args[1:]
        if m == 'format':
            return self.strformat(st, s[2], a, kw) if s[0] == 'k' else T('m', 'format', self.freeze(st, s))
        if m == 'join':
            return self.strjoin(st, s, a[0])
        if m == 'maketrans':
            return T('maketrans')
        if s[0] == 'k' and m in STR_CONST and not kw:
            cs = [self.const_val(st, x) for x in a]
            if all(c is not None and c[1] not in ('list', 'dict') for c in cs):
                try:
                    r = getattr(s[2], m)(*[tuple(y[2] for y in c[2]) if c[1] == 'tuple' else c[2] for c in cs])
                except (TypeError, ValueError) as e:
                    self.raise_(st, type(e).__name__)
                if isinstance(r, list):
                    return st.new(ListO(tuple(K(x) for x in r)))
                if isinstance(r, tuple):
                    return ('tup', tuple(K(x) for x in r))
                return K(r)
        if m in DICT_METHODS and m not in ('__len__', '__contains__', '__getitem__', '__iter__', '__eq__') or m in ('append', 'extend', 'sort', 'add', 'read', 'write'):
            self.raise_(st, 'AttributeError', K(m))
        return self.strmeth(st, m, s, a, kw)

    bm_bytes = bm_str

    def bm_int(self, st, m, args, kw):
        if m in DICT_METHODS or m in STR_CONST:
            self.raise_(st, 'AttributeError', K(m))
        return T('m', m, *[self.freeze(st, x) for x in args])

    bm_bool = bm_float = bm_int

    def strmeth(self, st, m, s, a, kw):
        fa = tuple(self.freeze(st, x) for x in a)
        fs = self.freeze(st, s)
        if m == '__len__':
            return T('len', fs)
        if m == '__contains__':
            return TRUE if self.contains(st, a[0], s) else FALSE
        if m == '__getitem__':
            return self.getitem(st, s, a[0])
        if m == 'split' and fa and fs[0] == 't' and fs[1] == 'join' and fs[2] == fa[0]:
            # joining and splitting with the same separator is the identity on separator-free parts
            return T('resplit', fs[3])
        if m == 'split' and fs[0] == 't' and fs[1] == 'concat' and len(fa) == 1 and fa[0][0] == 'k' and fa[0][1] == 'str' and fa[0][2]:
            r = self.split_concat(st, fs[2], fa[0])
            if r is not None:
                return r
        if m == 'split' and fs[0] == 't' and fs[1] == 'sym' and len(fa) == 1 and st.facts.decide(('in', fa[0], fs)) is False and 'str' in (st.facts.types(fs) or ()):
            return st.new(ListO((fs,)))
        if m in ('encode', 'decode'):
            return T('m', m, fs)
        if m in ('partition', 'rpartition', 'split', 'rsplit') and fs[0] == 't' and fa and fa[0][0] == 'k' and fa[0][1] == 'str' and fa[0][2] and not kw \
                and (fa[1:] == (K(1),) if m in ('split', 'rsplit') else len(fa) == 1) and self.known_type(st, fs) == 'str':
            p = self.known_cut(st, m[0] == 'r', fs, fa[0][2])
            if p is not None:
                return ('tup', (p[0], fa[0], p[1])) if m.endswith('partition') else st.new(ListO(p))
        if m in ('startswith', 'endswith') and len(fa) == 1 and fa[0] == EMPTYS:
            return TRUE
        if m in ('startswith', 'endswith') and len(fa) == 1 and not kw:
            if fa[0][0] == 'tup':
                return TRUE if any(self.truth(st, self.strmeth(st, m, fs, [x], {})) for x in fa[0][1]) else FALSE
            if fa[0][0] == 'k' and fa[0][1] == 'tuple':
                return TRUE if any(self.truth(st, self.strmeth(st, m, fs, [x], {})) for x in fa[0][2]) else FALSE
            if fs[0] == 't' and fs[1] == 'concat' and fa[0][0] in ('k', 't'):
                at = ('truthy', T('m', m, fs, fa[0]))
                r = st.facts.f.get(at)
                if r is None:
                    r = self.edge(st, m, list(fs[2]), fa[0])
                    if r is not None:
                        st.facts.f[at] = r
                if r is not None:
                    return TRUE if r else FALSE
            elif fs[0] == 't' and fa[0][0] == 'k' and fa[0][1] == 'str':
                r = self.edge_known(st, m, fs, fa[0][2])
                if r is not None:
                    return TRUE if r else FALSE
                if st.facts.types(fs) is None:
                    st.facts.assume(('isa', fs, 'str'), True)
        if m in ('find', 'rfind', 'index', 'rindex', 'count') and len(fa) == 1 and fa[0][0] == 'k' and fa[0][1] == 'str' and not kw and self.known_type(st, fs) == 'str':
            r = T('m', m, fs, *fa)
            if not self.contains(st, fa[0], fs):
                if m in ('index', 'rindex'):
                    self.raise_(st, 'ValueError')
                return K(0 if m == 'count' else -1)
            self.assume(st, *mk_le(({r: -1}, 1 if m == 'count' else 0)))
            return r
        if m == 'total_seconds' and fs == T('sinceepoch'):
            return T('NOW')
        return T('m', m, fs, *fa) if not kw else T('m', m, fs, *(fa + (('tup', tuple(x[1] for x in self.fzkw(st, kw))),)))

    def known_cut(self, st, last, x, sep):
        """the parts of a text before and after the last (first) separator, where its end (start) is known"""
        for a, v in list(st.facts.f.items()):
            if v and a[0] == 'truthy' and a[1][0] == 't' and a[1][1:4] == ('m', 'endswith' if last else 'startswith', x) and len(a[1]) == 5 and a[1][4][0] == 'k' and a[1][4][1] == 'str':
                d = a[1][4][2]
                if sep in d:
                    h, _, t = d.rpartition(sep) if last else d.partition(sep)
                    if last:
                        return (self.slice(st, x, NONE, K(len(h) - len(d)), NONE), K(t))
                    return (K(h), self.slice(st, x, K(len(d) - len(t)), NONE, NONE))
        return None

    def edge_known(self, st, m, x, c):
        """does the text x start (end) with c, from what is known about other prefixes (suffixes) of it?"""
        f = (lambda a, b: a.startswith(b)) if m == 'startswith' else (lambda a, b: a.endswith(b))
        if st.facts.decide(('truthy', x)) is False:
            return False
        if x[1] == 'm' and x[2] in ('strip', 'lstrip' if m == 'startswith' else 'rstrip') and len(x) == 5 and x[4][0] == 'k' and x[4][1] == 'str' and c:
            if (c[0] if m == 'startswith' else c[-1]) in x[4][2]:
                return False
        for a, v in st.facts.f.items():
            if a[0] == 'truthy' and a[1][0] == 't' and a[1][1:4] == ('m', m, x) and len(a[1]) == 5 and a[1][4][0] == 'k' and a[1][4][1] == 'str':
                d = a[1][4][2]
                if v and f(d, c):
                    return True
                if v and not f(c, d):
                    return False
                if not v and f(c, d):
                    return False
        return None

    def edge(self, st, m, parts, c):
        """the same for a concatenation"""
        first = m == 'startswith'
        f = (lambda a, b: a.startswith(b)) if first else (lambda a, b: a.endswith(b))
        while parts:
            p = parts[0 if first else -1]
            if p == c:
                return True
            if c[0] != 'k' or c[1] != 'str':
                return None
            if p[0] == 'k':
                if p[1] != 'str':
                    return None
                if f(p[2], c[2]):
                    return True
                if not f(c[2], p[2]):
                    return False
                c = K(c[2][len(p[2]):] if first else c[2][:len(c[2]) - len(p[2])])
            else:
                if self.truth(st, self.strmeth(st, m, p, [c], {})):
                    return True
                if len(c[2]) == 1:
                    if self.decide(st, ('truthy', p)):
                        return False
                elif len(parts) > 1:
                    return None
                else:
                    return False
            parts = parts[1:] if first else parts[:-1]
        return c[2] == ''

    def strjoin(self, st, sep, v):
        its = self.iterate(st, v)
        if not any(i[0] in ('gen', 'maybe') for i in its):
            parts = []
            for n, i in enumerate(its):
                if i[0] not in ('k', 't') or i[0] == 'k' and i[1] != sep[1] or (i[0] == 't' and self.bad_str(st, i)):
                    self.raise_(st, 'TypeError', K('sequence item: expected str'))
                if n:
                    parts.append(sep)
                parts.append(i)
            if sep[0] == 'k' and sep[1] == 'bytes':
                return T('bjoin', tuple(parts))
            return self.concat(st, parts)
        return T('join', self.freeze(st, sep), self.freeze(st, v))

    def split_concat(self, st, parts, sep):
        """split of a concatenation whose unknown parts are known to be free of the separator"""
        out = [[]]
        for p in parts:
            if p[0] == 'k' and p[1] == 'str':
                if len(sep[2]) > 1:
                    return None
                a = p[2].split(sep[2])
                out[-1].append(K(a[0]))
                out += [[K(x)] for x in a[1:]]
            elif p[0] == 't' and len(sep[2]) == 1 and st.facts.decide(('in', sep, p)) is False:
                out[-1].append(p)
            else:
                return None
        return st.new(ListO(tuple(self.concat(st, x) for x in out)))

    def bad_str(self, st, v):
        ty = st.facts.types(v)
        return bool(ty) and 'str' not in ty and 'object' not in ty

    def bm_term(self, st, m, args, kw):
        """method of a value of unknown type"""
        v = args[0]
        a = args[1:]
        h = self.hooks.get('meth:' + m)
        if h:
            r = h(self, st, v, a, kw)
            if r is not None:
                return r
        h = self.hooks.get('meth')
        if h:
            r = h(self, st, v, m, a, kw)
            if r is not None:
                return r
        ty = st.facts.types(v)
        c = st.facts.const(v)
        if c is not None and c[0] == 'k':
            return self.call(st, self.getattr(st, c, m), a, kw)
        if ty:
            if m in ('get', 'items', 'keys', 'values', 'update', 'setdefault', 'pop', 'popitem') and not (ty & {'dict', 'Message', 'object'}) \
                    and not (m == 'pop' and 'list' in ty):
                self.raise_(st, 'AttributeError', K(m))
            if m in STR_CONST and not (ty & {'str', 'bytes', 'object'}) and not (ty & {'list'} and m in ('index', 'count')):
                self.raise_(st, 'AttributeError', K(m))
        if m == 'get':
            if self.decide(st, ('in', self.key(st, a[0]), v)):
                return self.item_term(st, v, self.key(st, a[0]))
            return a[1] if len(a) > 1 else kw.get('default', NONE)
        if m in ('keys', 'items', 'values') and not a:
            return ('dv', m, DictO(v))
        if m == '__contains__':
            return TRUE if self.contains(st, a[0], v) else FALSE
        if m == '__getitem__':
            return self.getitem(st, v, a[0])
        if m == '__len__':
            return T('len', v)
        if m == 'copy':
            return v
        if m == 'format':
            return T('m', 'format', v, *[self.freeze(st, x) for x in a])
        if m == 'join':
            return self.strjoin(st, v, a[0])
        if m in ('update', 'setdefault', 'pop', 'popitem', 'clear', 'append', 'extend', 'remove', 'insert', 'sort', 'add', 'discard', '__setitem__', '__delitem__'):
            h = self.hooks.get('mutate')
            if h:
                h(self, st, v, m, a, kw)
            return T('m', m, v, *[self.freeze(st, x) for x in a])
        return self.strmeth(st, m, v, a, kw)

    # ------------------------------------------------------------ functions
    def b_len(self, st, args, kw):
        v = args[0]
        if v[0] == 'k':
            if v[1] in ('str', 'bytes', 'list', 'tuple'):
                return K(len(v[2]))
            if v[1] == 'dict':
                return K(0)
            self.raise_(st, 'TypeError', K('len'))
        if v[0] == 'tup':
            return K(len(v[1]))
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, InstO):
                m = self.find_attr(st, o.cls, '__len__')
                if m is not None and m[0] == 'fn':
                    return self.call(st, ('bm', m, v), [], {})
                if '$dict' in o.attrs:
                    return self.b_len(st, [o.attrs['$dict']], {})
                self.raise_(st, 'TypeError', K('len'))
            if isinstance(o, ListO):
                if not any(i[0] in ('gen', 'maybe') for i in o.items):
                    if not isinstance(o, SetO) or all(i[0] == 'k' for i in o.items):
                        return K(len(o.items))
                its = self.norm_items(st, o.items)
                if not isinstance(o, SetO) and not any(i[0] in ('gen', 'maybe') for i in its):
                    return K(len(its))
                if len(its) == 1 and its[0][0] == 'gen' and not its[0][3] and (not isinstance(o, SetO) or its[0][4] == its[0][1] and isinstance(its[0][2], DictO)):
                    c = self.src_term(its[0][2])
                    if c is not None:
                        return T('len', c)
                fz = self.freeze(st, v)
                if fz[0] == 't' and fz[1] == 'listof' and not isinstance(o, SetO):
                    return T('len', fz[2])
                if any(i[0] == 'gen' and i[3] for i in its) and st.facts.bounds(T('len', fz))[0] in (None, 0):
                    if not self.list_nonempty(st, ListO(its)):
                        return K(0)
                    self.assume(st, *mk_le(({T('len', fz): -1}, 1)))
                return T('len', fz)
            if isinstance(o, DictO):
                if o.simple():
                    return K(len(o.items()))
                if o.base is None and not o.layers and all(e not in (DEL, MISS) and e[0] != 'ite' for e in o.conc.values()):
                    return K(len(o.conc))
                t = T('len', o.base if o.base is not None and not o.layers and not o.conc else T('dct', o))
                n = len([k for k in set(self.known_keys(st, o)) | set(o.conc) if k[0] == 'k' and o.conc.get(k, NONE) not in (DEL, MISS)
                         and (k in o.conc or not o.layers) and (o.conc.get(k) or NONE)[0] != 'ite'])
                if n:
                    at, v = mk_le(({t: -1}, n))
                    self.assume(st, at, v)
                return t
        if v[0] == 'dv':
            return self.b_len(st, [st.new(v[2])], {})
        if v[0] == 't':
            c = st.facts.const(v)
            if c is not None:
                return self.b_len(st, [c], {})
            ty = st.facts.types(v)
            if ty and ty <= {'int', 'bool', 'NoneType', 'float'}:
                self.raise_(st, 'TypeError', K('len'))
            if v[1] == 'listof' and v[2][0] == 't':
                return T('len', v[2])
            if v[1] == 'lst' and not any(i[0] in ('gen', 'maybe') for i in v[3]) and v[2] != 'SetO':
                return K(len(v[3]))
            return T('len', v)
        if v[0] in ('ext',):
            return T('len', T('v', v))
        self.raise_(st, 'TypeError', K('len'))

    def b_isinstance(self, st, args, kw):
        return TRUE if self.isinstance_(st, args[0], args[1]) else FALSE

    def b_issubclass(self, st, args, kw):
        c, d = args
        if c[0] not in ('cls', 'bi', 'ext', 't'):
            self.raise_(st, 'TypeError', K('issubclass() arg 1 must be a class'))
        if c[0] == 'bi' and c[1] not in TYPE_NAMES:
            self.raise_(st, 'TypeError', K('issubclass() arg 1 must be a class'))
        ds = d[1] if d[0] == 'tup' else (d,)
        for x in ds:
            if c[0] == 't' or x[0] == 't':
                if self.decide(st, ('subclass', c, x)):
                    return TRUE
                continue
            r = self.is_subclass(c, x)
            if r is None:
                r = self.decide(st, ('subclass', c, x))
            if r:
                return TRUE
        return FALSE

    def b_callable(self, st, args, kw):
        v = args[0]
        if v[0] in ('fn', 'bm', 'cls', 'bi'):
            return TRUE
        if v[0] in ('t', 'ext'):
            return TRUE if self.decide(st, ('callable', v)) else FALSE
        if v[0] == 'r' and isinstance(st.obj(v), InstO):
            return K(self.find_attr(st, st.obj(v).cls, '__call__') is not None)
        return FALSE

    def b_type(self, st, args, kw):
        if len(args) != 1:
            raise Undecided('type() with three arguments')
        v = args[0]
        c = self.class_of(st, v)
        if c is not None:
            return c
        if v[0] == 't':
            if v[1] == 'dct':
                return ('bi', 'dict')
            if v[1] == 'obj':
                return ('cls', v[2])
            ty = st.facts.types(v)
            if ty and len(ty) == 1:
                t = next(iter(ty))
                if t in TYPE_NAMES:
                    return ('bi', t)
            return T('typeof', v)
        return T('typeof', T('v', v))

    def b_hasattr(self, st, args, kw):
        try:
            self.getattr(st, args[0], args[1][2])
            return TRUE
        except PyExc as e:
            if e.value[1] == ('bi', 'AttributeError'):
                return FALSE
            raise

    def b_getattr(self, st, args, kw):
        n = args[1]
        if n[0] == 't':
            c = st.facts.const(n)
            if c is None and args[0][0] == 'mod':
                r = self.dict_get(st, self.mod_names(st, args[0][1]), n)
                if r is not MISS:
                    return r
                if len(args) > 2:
                    return args[2]
                self.raise_(st, 'AttributeError', n)
            if c is None:
                raise Undecided('getattr with unknown name')
            n = c
        try:
            return self.getattr(st, args[0], n[2])
        except PyExc as e:
            if len(args) > 2 and e.value[1] == ('bi', 'AttributeError'):
                return args[2]
            raise

    def b_setattr(self, st, args, kw):
        if args[1][0] != 'k':
            h = self.hooks.get('setattr_dyn')
            if h:
                h(self, st, args)
                return NONE
            if args[0][0] == 'r' and isinstance(st.obj(args[0]), InstO):
                st.setobj(args[0], st.obj(args[0]).set('$dyn', T('dynattr', self.freeze(st, args[1]), self.freeze(st, args[2]))))
            return NONE
        self.setattr(st, args[0], args[1][2], args[2])
        return NONE

    def b_delattr(self, st, args, kw):
        self.delattr(st, args[0], args[1][2])
        return NONE

    def mod_names(self, st, name):
        return DictO(None, (), {K(n): v for n, v in st.frame('mod:' + name).items() if v[0] != 't' or v[1] != 'unbound'})

    def b_globals(self, st, args, kw):
        return st.new(self.mod_names(st, self.stack[-1].mod))

    def b_vars(self, st, args, kw):
        if args and args[0][0] == 'mod':
            return st.new(self.mod_names(st, args[0][1]))
        return self.getattr(st, args[0], '__dict__')

    def b_id(self, st, args, kw):
        return T('id', self.freeze(st, args[0]))

    def b_hash(self, st, args, kw):
        return T('hash', self.freeze(st, args[0]))

    def b_repr(self, st, args, kw):
        return T('str', T('repr', self.freeze(st, args[0]) if args[0][0] != 'r' else T('logged')))

    def b_print(self, st, args, kw):
        return NONE

    def b_sorted(self, st, args, kw):
        v = args[0]
        its = self.iterate(st, v)
        if all(i[0] == 'k' for i in its) and not kw:
            try:
                return st.new(ListO(tuple(sorted(its, key=lambda x: x[2]))))
            except TypeError:
                self.raise_(st, 'TypeError')
        return st.new(ListO(its))

    def b_reversed(self, st, args, kw):
        return st.new(ListO(tuple(reversed(self.iterate(st, args[0]))), 'iter'))

    def b_iter(self, st, args, kw):
        v = args[0]
        if v[0] == 'r' and isinstance(st.obj(v), ListO) and st.obj(v).kind in ('generator', 'iter'):
            return v
        return st.new(ListO(self.iterate(st, v), 'iter'))

    def b_next(self, st, args, kw):
        v = args[0]
        if v[0] == 'r' and isinstance(st.obj(v), ListO):
            o = st.obj(v)
            its = list(o.items)
            while its:
                x = its[0]
                if x[0] == 'gen':
                    if self.gen_nonempty(st, x):
                        r = self.some_of(st, x, ('next',))
                        e = T('elem', 'nx', st.nid)
                        st.nid += 1
                        st.setobj(v, ListO((('gen', e, T('rest', x[2], st.nid), (), e),) + tuple(its[1:]), o.kind))
                        return r
                    its.pop(0)
                    continue
                if x[0] == 'maybe':
                    if not self.decide_lit(st, x[1], x[2]):
                        its.pop(0)
                        continue
                    x = x[3]
                st.setobj(v, ListO(its[1:], o.kind))
                return x
            if len(args) > 1:
                return args[1]
            self.raise_(st, 'StopIteration')
        if v[0] == 'r' and isinstance(st.obj(v), InstO):
            m = self.find_attr(st, st.obj(v).cls, '__next__')
            if m is not None:
                return self.call(st, ('bm', m, v), [], {})
        if v[0] in ('t', 'ext'):
            return T('next', self.freeze(st, v))
        self.raise_(st, 'TypeError', K('not an iterator'))

    def b_enumerate(self, st, args, kw):
        its = self.iterate(st, args[0])
        out = []
        n = 0
        start = args[1] if len(args) > 1 else kw.get('start', K(0))
        for i in its:
            if i[0] == 'gen':
                _, e, src, conds, elt = i
                out.append(('gen', e, src, conds, ('tup', (T('pos', e), elt))))
                n = None
            elif i[0] == 'maybe':
                out.append(('maybe', i[1], i[2], ('tup', (T('pos', self.freeze(st, i[3])), i[3]))))
                n = None
            elif n is None:
                out.append(('tup', (T('pos', self.freeze(st, i)), i)))
            else:
                out.append(('tup', (K(start[2] + n), i)))
                n += 1
        return st.new(ListO(out, 'iter'))

    def b_zip(self, st, args, kw):
        ls = [self.iterate(st, a) for a in args]
        if any(i[0] in ('gen', 'maybe') for l in ls for i in l):
            e = T('elem', 'zip', st.nid)
            st.nid += 1
            src = T('zip', tuple(self.freeze(st, a) for a in args))
            return st.new(ListO((('gen', e, src, (), ('tup', tuple(T('idx', e, K(i)) for i in range(len(ls))))),), 'iter'))
        return st.new(ListO(tuple(('tup', t) for t in zip(*ls)), 'iter'))

    _hof = {}

    def hof(self, st, src_txt, names, vals):
        """run a tiny loop written in Python (map, filter, any, all, ...)"""
        q = self._hof.get(src_txt)
        if q is None:
            fn = ast.parse(src_txt).body[0]
            info = FuncInfo(fn, self.stack[-1].mod if self.stack else '', '<builtin>', None, None)
            q = self._hof[src_txt] = (fn, info)
        fn, info = q

        def thunk(s0):
            s = s0.copy()
            base = s0.nid
            fid = s.nid
            s.nid += 1
            s.frames[fid] = dict(zip(names, vals))
            c2 = Ctx(fid, self.stack[-1].mod if self.stack else next(iter(self.modules)), info, (), None, self.stack[-1].qual if self.stack else '')
            outs = self.exec_block(fn.body, s, c2, frozenset(), None)
            res = []
            for a, c in outs:
                a.frames.pop(fid, None)
                res.append((a, 'exc', c[1]) if c[0] == 'exc' else (a, 'val', c[1] if c[0] == 'ret' else NONE))
            return self.merge_returns(res, base)
        return self.memo(st, thunk)

    def b_any(self, st, args, kw):
        return self.hof(st, "def f(it):\n for x in it:\n  if x:\n   return True\n return False", ['it'], args)

    def b_all(self, st, args, kw):
        return self.hof(st, "def f(it):\n for x in it:\n  if not x:\n   return False\n return True", ['it'], args)

    def b_map(self, st, args, kw):
        if len(args) != 2:
            raise Undecided('map with several iterables')
        return self.hof(st, "def f(fn, it):\n r = []\n for x in it:\n  r.append(fn(x))\n return r", ['fn', 'it'], args)

    def b_filter(self, st, args, kw):
        if args[0] == NONE:
            return self.hof(st, "def f(fn, it):\n r = []\n for x in it:\n  if x:\n   r.append(x)\n return r", ['fn', 'it'], args)
        return self.hof(st, "def f(fn, it):\n r = []\n for x in it:\n  if fn(x):\n   r.append(x)\n return r", ['fn', 'it'], args)

    def b_sum(self, st, args, kw):
        its = self.iterate(st, args[0])
        if all(i[0] == 'k' for i in its):
            return K(sum(i[2] for i in its))
        its = self.norm_items(st, its)
        if all(i == K(1) or i[0] == 'gen' and i[4] == K(1) or i[0] == 'maybe' and i[3] == K(1) for i in its) and not kw and len(args) == 1:
            return self.b_len(st, [st.new(ListO(tuple(its)))], {})
        if not any(i[0] in ('gen', 'maybe') for i in its):
            r = args[1] if len(args) > 1 else kw.get('start', K(0))
            for i in its:
                r = i if r == K(0) else r if i == K(0) else self.binop(st, ast.Add, r, i)
            return r
        return T('sum', self.freeze(st, args[0]))

    def _minmax(self, st, args, kw, which):
        its = args if len(args) > 1 else list(self.iterate(st, args[0]))
        if any(i[0] in ('gen', 'maybe') for i in its) or kw:
            return T(which, tuple(self.freeze(st, a) for a in args))
        if not its:
            self.raise_(st, 'ValueError')
        best = its[0]
        for x in its[1:]:
            if self.order(st, ast.Lt() if which == 'min' else ast.Gt(), x, best):
                best = x
        return best

    def b_min(self, st, args, kw):
        return self._minmax(st, args, kw, 'min')

    def b_max(self, st, args, kw):
        return self._minmax(st, args, kw, 'max')

    def b_abs(self, st, args, kw):
        v = self.freeze(st, args[0])
        if v[0] == 'k':
            return K(abs(v[2]))
        if self.order(st, ast.GtE(), v, K(0)):
            return v
        l = lin_of(v)
        return lin_value(({t: -c for t, c in l[0].items()}, -l[1]))

    def b_round(self, st, args, kw):
        if args[0][0] == 'k':
            return K(round(args[0][2]))
        return T('round', self.freeze(st, args[0]))

    def b_range(self, st, args, kw):
        if all(a[0] == 'k' for a in args):
            r = range(*[a[2] for a in args])
            if len(r) > 300:
                raise Undecided('long range')
            return st.new(ListO(tuple(K(i) for i in r), 'iter'))
        e = T('elem', 'rg', st.nid)
        st.nid += 1
        src = T('range', tuple(self.freeze(st, a) for a in args))
        return st.new(ListO((('gen', e, src, (), e),), 'iter'))

    def b_chr(self, st, args, kw):
        if args[0][0] == 'k':
            return K(chr(args[0][2]))
        return T('chr', self.freeze(st, args[0]))

    def b_ord(self, st, args, kw):
        if args[0][0] == 'k':
            return K(ord(args[0][2]))
        return T('ord', self.freeze(st, args[0]))

    def b_str(self, st, args, kw):
        if not args:
            return EMPTYS
        if len(args) > 1:
            f = self.freeze(st, args[0])
            return self.decoded(f) if self.decoded(f) != f else T('m', 'decode', f)
        v = args[0]
        if v[0] == 't':
            t = st.facts.types(v)
            if t == {'str'}:
                return v
        if v[0] == 'exc':
            return T('str', T('exctext'))
        return self.tostr(st, v)

    def b_bytes(self, st, args, kw):
        return T('bytes', *[self.freeze(st, a) for a in args])

    b_bytearray = b_bytes

    def b_bool(self, st, args, kw):
        if not args:
            return FALSE
        return TRUE if self.truth(st, args[0]) else FALSE

    def b_int(self, st, args, kw):
        if not args:
            return K(0)
        v = args[0]
        if v[0] == 'k':
            if v[1] in ('NoneType', 'list', 'dict'):
                self.raise_(st, 'TypeError')
            try:
                return K(int(v[2], *[a[2] for a in args[1:]]))
            except (ValueError, TypeError) as e:
                self.raise_(st, type(e).__name__)
        if v[0] == 't':
            c = st.facts.const(v)
            if c is not None:
                return self.b_int(st, [c] + args[1:], kw)
            ty = st.facts.types(v)
            if ty and ty <= {'int'}:
                return v
            if ty and ty <= {'NoneType', 'list', 'dict', 'Message'}:
                self.raise_(st, 'TypeError')
            if v[1] in ('NOW', 'NOWF', 'epoch'):
                return v
            if v[1] in ('add', 'sub', 'mul') and self.numeric(st, v):
                return v
            if ty and not (ty & {'str', 'bytes'}) and ty <= {'int', 'bool', 'float'}:
                return T('intof', v)
            if not self.decide(st, ('intlike', v)):
                if ty and not (ty & {'str', 'bytes'}):
                    self.raise_(st, 'TypeError')
                if ty and ty <= {'str', 'bytes', 'float'}:
                    self.raise_(st, 'ValueError')
                if self.choose(2) == 0:
                    self.raise_(st, 'ValueError')
                self.raise_(st, 'TypeError')
            return T('intof', v)
        if v[0] == 'r' or v[0] in ('tup', 'cls', 'fn'):
            self.raise_(st, 'TypeError')
        return T('intof', self.freeze(st, v))

    def numeric(self, st, v):
        l = lin_of(v)
        return l is not None and any(t[1] == 'NOW' for t in l[0])

    def b_float(self, st, args, kw):
        v = args[0]
        if v[0] == 'k':
            try:
                return K(float(v[2]))
            except (ValueError, TypeError) as e:
                self.raise_(st, type(e).__name__)
        return self.freeze(st, v)

    def b_open(self, st, args, kw):
        h = self.hooks.get('open')
        if h:
            r = h(self, st, args, kw)
            if r is not None:
                return r
        return T('open', *[self.freeze(st, a) for a in args])

    def b_divmod(self, st, args, kw):
        return ('tup', (self.binop(st, ast.FloorDiv, *args), self.binop(st, ast.Mod, *args)))

    def b_format(self, st, args, kw):
        return T('fmt', *[self.freeze(st, a) for a in args])

    def b_property(self, st, args, kw):
        return ('prop', args[0], args[1] if len(args) > 1 else None)

    def b_staticmethod(self, st, args, kw):
        return ('static', args[0])

    def b_classmethod(self, st, args, kw):
        return ('clsm', args[0])

    def b_NotImplemented(self, st, args, kw):
        self.raise_(st, 'TypeError')
