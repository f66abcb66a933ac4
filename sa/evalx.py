"""Expression evaluation (direct style, branching through Core.choose)."""
import ast
import builtins as _b
from .core import *
from .astinfo import FuncInfo


class Ctx:
    """where code executes"""
    __slots__ = ('fid', 'mod', 'info', 'encl', 'cls', 'qual')

    def __init__(self, fid, mod, info=None, encl=(), cls=None, qual=''):
        self.fid = fid
        self.mod = mod
        self.info = info
        self.encl = encl
        self.cls = cls
        self.qual = qual


class ClassInfo:
    def __init__(self, qual, name, mod, bases, fid):
        self.qual = qual
        self.name = name
        self.mod = mod
        self.bases = bases
        self.fid = fid
        self.mro = ()
        self.node = None


BUILTINS = set(dir(_b))
EMPTY_LIST = ('k', 'list', ())
EMPTY_DICT = ('k', 'dict', frozenset())


def bexc(name):
    return ('bi', name)


class Evaluator(Core):
    def __init__(self):
        super().__init__()
        self.classes = {}
        self.funcs = {}
        self.node = None
        self.modname_of = {}
        self.hooks = {}         # dotted external name -> handler(self, st, args, kwargs, node, ctx)
        self.key_hooks = {}     # the same by function identity
        self.skip_hook = None
        self.fn_hooks = {}      # analysed function qual -> handler(self, st, fnv, args, kwargs, node)
        self.stack = []

    # ------------------------------------------------------------ errors
    def raise_(self, st, name, *args, cls=None):
        raise PyExc(('exc', cls or ('bi', name), tuple(args), self.where()))

    def where(self):
        n = self.node
        c = self.stack[-1] if self.stack else None
        return (c.mod if c else '?', getattr(n, 'lineno', 0), c.qual if c else '')

    # ------------------------------------------------------------ names
    def lookup(self, st, ctx, name):
        if ctx.info is None or name in ctx.info.locals:
            v = st.getl(ctx.fid, name)
            if v is not None:
                return v
            if ctx.info is not None:
                self.raise_(st, 'UnboundLocalError', K(name))
        for f in ctx.encl:
            v = st.getl(f, name)
            if v is not None:
                return v
        v = st.frame('mod:' + ctx.mod).get(name)
        if v is not None:
            return v
        if name == '__name__':
            return K(ctx.mod)
        if name in BUILTINS:
            return ('bi', name)
        if name == '__file__':
            return T('file', ctx.mod)
        self.raise_(st, 'NameError', K(name))

    # ------------------------------------------------------------ truth
    def truth_atom(self, st, v):
        """truth value when known: True/False, else an atom"""
        k = v[0]
        if k == 'k':
            return bool(v[2])
        if k == 't':
            if v[1] == 'concat' and any(p[0] == 'k' and p[2] for p in v[2]):
                return True
            return ('truthy', v)
        if k == 'tup':
            return bool(v[1])
        return None

    def truth(self, st, v):
        k = v[0]
        if k == 'k':
            return bool(v[2])
        if k == 't':
            if v[1] == 'concat':
                if any(p[0] == 'k' and p[2] for p in v[2]):
                    return True
                if all(self.known_type(st, p) == 'str' for p in v[2]):
                    return any(self.truth(st, p) for p in v[2])
            if st.facts.decide(('truthy', v)) is None and self.known_type(st, v) == 'str':
                for m in ('startswith', 'endswith'):
                    for a, x in st.facts.f.items():
                        if x and a[0] == 'truthy' and a[1][0] == 't' and a[1][1:4] == ('m', m, v) and len(a[1]) == 5 and a[1][4][0] == 'k' and a[1][4][2]:
                            return True
            return self.decide(st, ('truthy', v))
        if k == 'tup':
            return bool(v[1])
        if k == 'r':
            o = st.obj(v)
            if isinstance(o, InstO):
                m = self.find_attr(st, o.cls, '__bool__')
                if m is None:
                    m = self.find_attr(st, o.cls, '__len__')
                if m is not None:
                    return self.truth(st, self.call(st, ('bm', m, v), [], {}))
                if '$dict' in o.attrs:
                    return self.truth(st, o.attrs['$dict'])
                return True
            if isinstance(o, DictO):
                return self.dict_nonempty(st, o)
            if isinstance(o, ListO):
                return self.list_nonempty(st, o)
        if k == 'dv':
            return self.dict_nonempty(st, v[2])
        return True

    def dict_nonempty(self, st, o):
        for k, e in o.conc.items():
            if e not in (DEL, MISS) and e[0] != 'ite':
                return True
        for k, e in o.conc.items():
            if e not in (DEL, MISS):
                if self.dict_get(st, o, k) is not MISS:
                    return True
        if o.base is None and not o.layers:
            return False
        if o.base is not None and not o.layers and not o.conc:
            return self.decide(st, ('truthy', o.base))
        # known members
        for k in self.known_keys(st, o):
            if self.dict_get(st, o, k) is not MISS:
                return True
        if o.base is not None and not o.layers and st.facts.decide(('truthy', o.base)) is False:
            return False
        if o.base is None and o.layers and all(l[0] == 'upd' for l in o.layers):
            for l in o.layers:
                if self.truth(st, self.src_value(st, l[1])):
                    return True
            return False
        fz = T('dct', o)
        return self.decide(st, ('truthy', fz))

    def src_value(self, st, src):
        if isinstance(src, DictO):
            return st.new(src)
        return src

    def known_keys(self, st, o):
        """constant / witness keys about which membership facts exist"""
        srcs = set()
        self._srcs(o, srcs)
        ks = []
        for a, v in st.facts.f.items():
            if v and a[0] == 'in' and a[2] in srcs and a[1] not in ks:
                ks.append(a[1])
        return ks

    def _srcs(self, o, acc):
        if isinstance(o, DictO):
            if o.base is not None:
                acc.add(o.base)
            for l in o.layers:
                if l[0] == 'upd':
                    self._srcs(l[1], acc)
                elif l[0] == 'each':
                    self._srcs(l[2], acc)
        elif isinstance(o, tuple):
            acc.add(o)

    def list_nonempty(self, st, o):
        maybe = []
        for i in o.items:
            if i[0] == 'gen':
                maybe.append(i)
            elif i[0] == 'maybe':
                maybe.append(i)
            else:
                return True
        if not maybe:
            return False
        if len(maybe) == 1:
            i = maybe[0]
            if i[0] == 'gen' and not i[3] and not isinstance(i[2], DictO):
                return self.decide(st, ('truthy', i[2]))
        for i in maybe:
            if i[0] == 'maybe':
                if self.decide_lit(st, i[1], i[2]):
                    return True
                continue
            if self.gen_nonempty(st, i):
                return True
        return False

    def decide_lit(self, st, atom, val):
        return self.decide(st, atom) == val

    def gen_nonempty(self, st, g):
        """does a generated segment have an element?  ('gen', e, src, conds, elt)"""
        _, e, src, conds, elt = g
        if not conds:
            c = self.src_term(src)
            if c is not None:
                return self.decide(st, ('truthy', c))
        # witnesses
        for w in self.witnesses(st, src):
            if not self.src_has(st, src, w):
                continue
            ok = True
            for a, v in conds:
                if self.decide(st, subst_atom(a, e, w)) != v:
                    ok = False
                    break
            if ok:
                return True
        at = ('truthy', T('listof', g))
        r = st.facts.decide(at)
        if r is not None:
            return r
        c = self.choose(2)
        if c == 0:      # some element exists: a fresh one that satisfies the conditions
            w = self.phi('elem')
            self.assume_member(st, src, w)
            for a, v in conds:
                self.assume(st, subst_atom(a, e, w), v)
            self.assume(st, at, True)
            return True
        self.assume(st, at, False)
        # no element satisfies them: with a single condition all elements violate it
        if len(conds) == 1:
            self.add_tmpl(st, src, e, ((conds[0][0], not conds[0][1]),))
        elif not conds:
            self.assume(st, ('truthy', src), False) if not isinstance(src, DictO) else None
        return False

    def add_tmpl(self, st, src, e, conds, pre=()):
        base = src
        if isinstance(src, DictO):
            if src.layers or src.conc or src.base is None:
                return
            base = src.base
        if not isinstance(base, tuple):
            return
        st.facts.tmpl[base] = st.facts.tmpl.get(base, ()) + ((e, tuple(pre), tuple(conds)),)
        for a, v in list(st.facts.f.items()):
            if v and a[0] == 'in' and a[2] == base:
                if any(st.facts.decide(subst_atom(at, e, a[1])) != val for at, val in pre):
                    continue
                for at, val in conds:
                    self.assume(st, subst_atom(at, e, a[1]), val)

    def witnesses(self, st, src):
        """known elements of a symbolic collection"""
        if isinstance(src, DictO):
            return self.known_keys(st, src)
        return [a[1] for a, v in st.facts.f.items() if v and a[0] == 'in' and a[2] == src]

    def src_has(self, st, src, x):
        if isinstance(src, DictO):
            return self.dict_get(st, src, x) is not MISS
        return self.decide(st, ('in', x, src))

    def assume_member(self, st, src, x):
        if isinstance(src, DictO):
            if self.dict_get(st, src, x) is MISS:
                raise Infeasible()
        else:
            self.assume(st, ('in', x, src), True)

    # ------------------------------------------------------------ freezing
    def freeze(self, st, v, depth=0):
        """value without heap references"""
        if v[0] == 'r':
            if depth > 6:
                return T('deep')
            o = st.obj(v)
            if isinstance(o, DictO):
                if not o.conc and not o.layers and o.base is None:
                    return EMPTY_DICT
                if not o.conc and not o.layers:
                    return o.base
                conc = {}
                for k, e in o.conc.items():
                    conc[k] = self._fz_entry(st, e, depth)
                d = DictO(o.base, o.layers, conc)
                return T('dct', d)
            if isinstance(o, ListO):
                c = self.const_list(st, v)
                if c is not None:
                    return c
                if len(o.items) == 1 and o.items[0][0] == 'gen' and not o.items[0][3] and o.items[0][4] == o.items[0][1] \
                        and not isinstance(o.items[0][2], DictO) and o.kind in ('list', 'iter'):
                    return T('listof', o.items[0][2])
                return T('lst', type(o).__name__, tuple(self.freeze(st, i, depth + 1) if i[0] not in ('gen', 'maybe') else i for i in o.items))
            if isinstance(o, InstO):
                if '$term' in o.attrs:
                    return o.attrs['$term']
                return T('obj', o.cls, tuple((a, self.freeze(st, x, depth + 1)) for a, x in sorted(o.attrs.items())))
        if v[0] == 'tup':
            return ('tup', tuple(self.freeze(st, x, depth) for x in v[1]))
        if v[0] == 'bm':
            return T('bm', v[1], self.freeze(st, v[2], depth + 1))
        if v[0] == 'dv':
            return T('dv', v[1], v[2])
        return v

    def _fz_entry(self, st, e, depth):
        if e in (DEL, MISS):
            return e
        if e[0] == 'ite':
            return ('ite', e[1], self._fz_entry(st, e[2], depth), self._fz_entry(st, e[3], depth))
        return self.freeze(st, e, depth + 1)

    def const_list(self, st, v):
        o = st.obj(v)
        if not isinstance(o, ListO) or isinstance(o, SetO):
            return None
        r = []
        for i in o.items:
            c = self.const_val(st, i)
            if c is None:
                return None
            r.append(c)
        return ('k', 'list', tuple(r))

    def const_val(self, st, v):
        """constant comparable with symbolic values, or None"""
        if v[0] == 'k':
            return v
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, ListO) and not isinstance(o, SetO):
                return self.const_list(st, v)
            if isinstance(o, DictO) and o.base is None and not o.layers and not o.conc:
                return EMPTY_DICT
        if v[0] == 'tup':
            r = [self.const_val(st, x) for x in v[1]]
            if None not in r:
                return ('k', 'tuple', tuple(r))
        return None

    # ------------------------------------------------------------ dicts
    def dict_get(self, st, o, key):
        """value or MISS.  Branches as needed."""
        if key[0] == 'k' and key[1] == 'bool':
            pass
        e = o.conc.get(key)
        if e is None and o.conc:
            # possibly equal keys
            if key[0] == 't':
                for k2 in o.conc:
                    if k2[0] in ('k', 't') and k2 != key:
                        if self.equal(st, key, k2):
                            e = o.conc[k2]
                            break
            elif key[0] == 'k':
                for k2 in o.conc:
                    if k2[0] == 't' and self.equal(st, key, k2):
                        e = o.conc[k2]
                        break
        if e is not None:
            r = self.entry(st, e)
            if r is not MISS:
                return MISS if r == DEL else r
        for l in reversed(o.layers):
            r = self.layer_get(st, l, key)
            if r is not MISS:
                return MISS if r == DEL else r
        if o.base is None:
            return MISS
        if self.decide(st, ('in', key, o.base)):
            return self.item_term(st, o.base, key)
        return MISS

    def dkey_eq(self, st, a, b):
        """whether two keys are known to be equal or different"""
        if a == b:
            return True
        if a[0] == 'k' and b[0] == 'k':
            return _keq(a, b)
        if a[0] in ('k', 't') and b[0] in ('k', 't'):
            return st.facts.decide(mk_eq(a, b))
        return None

    def dput(self, st, o, key, entry):
        """DictO.put with what is known about the keys"""
        if o.base is None and not o.layers and (key[0] == 't' or any(k[0] == 't' for k in o.conc)) and all(e not in (DEL, MISS) for e in o.conc.values()):
            same = None
            for k in o.conc:
                r = self.dkey_eq(st, k, key)
                if r is None:
                    return o.put(key, entry)
                if r:
                    same = k
                    break
            c = dict(o.conc)
            if same is not None:
                if entry == DEL:
                    del c[same]
                else:
                    c[same] = entry
            elif entry != DEL:
                c[key] = entry
            return DictO(None, (), c)
        return o.put(key, entry)

    def item_term(self, st, base, key):
        return T('item', base, key)

    def entry(self, st, e):
        while e[0] == 'ite':
            e = e[2] if self.decide(st, e[1]) else e[3]
        if e == MISS:
            return MISS
        return e

    def layer_get(self, st, l, key):
        op = l[0]
        if op == 'ov':
            for k2, e in l[1]:
                if k2 == key or (('t' in (k2[0], key[0])) and self.equal(st, k2, key)):
                    return self.entry(st, e)
            return MISS
        if op == 'upd':
            src = l[1]
            if isinstance(src, DictO):
                return self.dict_get(st, src, key)
            if self.decide(st, ('in', key, src)):
                return self.item_term(st, src, key)
            return MISS
        if op == 'each':
            _, e, src, cases = l
            if not self.src_has(st, src, key):
                return MISS
            feas = []
            for conds, eff in cases:
                if all(st.facts.decide(subst_atom(a, e, key)) in (None, v) if a[0] != 'not' else True for a, v in conds):
                    feas.append((conds, eff))
            if not feas:
                raise Infeasible()
            i = self.choose(len(feas))
            conds, eff = feas[i]
            for a, v in conds:
                self.assume(st, subst_atom(a, e, key), v)
            if eff[0] == 'maybe_none':
                for lits in eff[1]:
                    und = None
                    for a, v in lits:
                        d = st.facts.decide(subst_atom(a, e, key))
                        if d is None:
                            und = (a, v) if und is None else 0
                        elif d != v:
                            break
                    else:
                        if und is None:
                            raise Infeasible()
                        if und != 0:
                            self.assume(st, subst_atom(und[0], e, key), not und[1])
                return MISS
            if eff[0] == 'none':
                return MISS
            if eff[0] == 'del':
                return DEL
            return subst(eff[1], e, key)
        if op == 'havoc':
            # contents unknown from here down
            if self.decide(st, ('in', key, l[1])):
                return self.item_term(st, l[1], key)
            return DEL
        raise Undecided('layer ' + op)

    def as_dict(self, st, v):
        """DictO snapshot of a mapping value (or None)"""
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, DictO):
                return o
            if isinstance(o, InstO):
                if '$dict' in o.attrs:
                    return st.obj(o.attrs['$dict'])
                d = o.attrs.get('_dict')
                if d is not None and self.is_message(o.cls):
                    return self.as_dict(st, d)
        if v[0] == 't':
            if v[1] == 'dct':
                return v[2]
            return DictO(v)
        if v == EMPTY_DICT:
            return DictO()
        return None

    def is_message(self, cls):
        return any(c[0] == 'cls' and c[1].endswith('message.Message') for c in self.classes[cls].mro) if cls in self.classes else False

    def dict_items(self, st, o):
        """pieces of a dict: ('one', key, entryvalue) ('maybe', key, entry) ('gen', src)"""
        out = []
        if o.base is not None or o.layers:
            out.append(('gen', o))
        for k, e in o.conc.items():
            if e in (DEL, MISS):
                continue
            out.append(('one', k, e))
        return out

    def keys_source(self, st, v):
        """the unknown dict of which v is the collection of all keys"""
        if v[0] == 'dv' and v[1] == 'keys':
            o = v[2]
            return o if isinstance(o, DictO) else None
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, ListO) and len(o.items) == 1 and o.items[0][0] == 'gen':
                i = o.items[0]
                if i[4] == i[1] and not i[3] and isinstance(i[2], DictO):
                    return i[2]
        return None

    def const_members(self, st, v, c):
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, ListO) and all(i[0] == 'k' for i in o.items):
                return tuple(o.items)
        if v[0] == 'tup' and all(i[0] == 'k' for i in v[1]):
            return v[1]
        if c is not None and c[1] in ('list', 'tuple') and all(isinstance(i, tuple) and i[0] == 'k' for i in c[2]):
            return tuple(c[2])
        return None

    def only_keys(self, st, d, ks):
        for k in ks:
            if self.dict_get(st, d, k) is MISS:
                return False
        for k in self.known_keys(st, d) + list(d.conc):
            if k[0] == 'k' and k not in ks and self.dict_get(st, d, k) is not MISS:
                return False
        if d.base is None and not d.layers:
            return True
        return self.decide(st, ('p', 'onlykeys', T('dct', d) if d.layers or d.conc else d.base, ('tup', tuple(ks))))

    # ------------------------------------------------------------ equality / membership
    def edge_test(self, st, x, y):
        """comparing the first (last) characters of a text with a constant asks how the text starts (ends)"""
        if x[0] == 't' and y[0] == 'k' and y[1] == 'str' and y[2]:
            n = len(y[2])
            if x[1] == 'idx' and n == 1 and x[3] in (K(0), K(-1)) and self.known_type(st, x[2]) == 'str':
                return 'startswith' if x[3] == K(0) else 'endswith'
            if x[1] == 'slice' and x[5] in (NONE, K(1)) and self.known_type(st, x[2]) == 'str':
                if x[3] in (NONE, K(0)) and x[4] == K(n):
                    return 'startswith'
                if x[3] == K(-n) and x[4] == NONE:
                    return 'endswith'
        return None

    def equal(self, st, a, b):
        if a == b and a[0] != 'exc':
            return True
        ca, cb = self.const_val(st, a), self.const_val(st, b)
        if ca is not None and cb is not None:
            try:
                return _pyval(ca) == _pyval(cb)
            except Exception:
                return ca == cb
        for x, y in ((a, cb), (b, ca)):
            if x[0] == 'r' and y is not None:
                o = st.obj(x)
                if isinstance(o, ListO) and not isinstance(o, SetO) and o.kind == 'list' and _simple(o):
                    return y[1] == 'list' and len(y[2]) == len(o.items) and all(self.equal(st, i, j) for i, j in zip(o.items, y[2]))
        if a[0] == 'tup' and b[0] == 'tup':
            if len(a[1]) != len(b[1]):
                return False
            return all(self.equal(st, x, y) for x, y in zip(a[1], b[1]))
        if a[0] in ('cls', 'bi', 'fn', 'ext', 'mod', 'bm') and b[0] in ('cls', 'bi', 'fn', 'ext', 'mod', 'bm'):
            return a == b
        for x, y in ((a, b), (b, a)):
            if x[0] == 'r':
                o = st.obj(x)
                if isinstance(o, InstO):
                    m = self.find_attr(st, o.cls, '__eq__')
                    if m is not None and m[0] == 'fn':
                        return self.truth(st, self.call(st, ('bm', m, x), [y], {}))
                    if '$dict' not in o.attrs:
                        if y[0] == 'r':
                            return x == y
                        if '$term' not in o.attrs and y[0] == 't':
                            return False
        if a[0] == 'r' and b[0] == 'r':
            oa, ob = st.obj(a), st.obj(b)
            if isinstance(oa, DictO) and isinstance(ob, DictO):
                if oa == ob:
                    return True
                if oa.simple() and ob.simple():
                    ka, kb = dict(oa.items()), dict(ob.items())
                    if set(ka) != set(kb):
                        return False
                    return all(self.equal(st, ka[k], kb[k]) for k in ka)
                for p, q in ((oa, ob), (ob, oa)):
                    if p.base is None and not p.layers and not p.conc:
                        return not self.dict_nonempty(st, q)
            elif isinstance(oa, ListO) and isinstance(ob, ListO):
                if isinstance(oa, SetO) != isinstance(ob, SetO):
                    return False
                if _simple(oa) and _simple(ob):
                    if isinstance(oa, SetO):
                        if set(oa.items) == set(ob.items):
                            return True
                        if all(i[0] == 'k' for i in oa.items + ob.items):
                            return False
                    else:
                        if len(oa.items) != len(ob.items):
                            return False
                        return all(self.equal(st, x, y) for x, y in zip(oa.items, ob.items))
                for p, q in ((oa, ob), (ob, oa)):
                    if not p.items:
                        return not self.list_nonempty(st, q)
            elif isinstance(oa, InstO) or isinstance(ob, InstO):
                pass
            else:
                return False
        for x, y in ((a, b), (b, a)):
            if x[0] in ('cls', 'bi', 'fn') and (y[0] == 'tup' or y[0] == 'r' and isinstance(st.obj(y), (ListO, DictO))):
                return False
        for x, y, c in ((a, b, cb), (b, a, ca)):
            d = self.keys_source(st, x)
            if d is not None:
                ks = self.const_members(st, y, c)
                if ks is not None:
                    return self.only_keys(st, d, ks)
        # dict views / sets
        fa, fb = ca or self.freeze(st, a), cb or self.freeze(st, b)
        if fa == fb:
            return True
        if fa[0] == 't' and fb == EMPTY_DICT and fa[1] == 'dct':
            return not self.truth(st, a)
        if fb[0] == 't' and fa == EMPTY_DICT and fb[1] == 'dct':
            return not self.truth(st, b)
        if fa[0] in ('k', 't', 'tup') and fb[0] in ('k', 't', 'tup'):
            ta, tb = self.known_type(st, a), self.known_type(st, b)
            if ta and tb and ta != tb and not ({ta, tb} <= {'int', 'float', 'bool'}) and 'obj' not in (ta, tb) \
                    and not ({ta, tb} <= {'dict', 'Message'}):
                return False
            if fa[0] == 'tup' or fb[0] == 'tup':
                fa, fb = T('tupv', fa) if fa[0] == 'tup' else fa, T('tupv', fb) if fb[0] == 'tup' else fb
            for x, y in ((fa, fb), (fb, fa)):
                m = self.edge_test(st, x, y)
                if m is not None:
                    return self.truth(st, self.strmeth(st, m, x[2], [y], {}))
            return self.decide(st, mk_eq(fa, fb))
        if fa[0] in ('cls', 'bi', 'ext', 'fn') or fb[0] in ('cls', 'bi', 'ext', 'fn'):
            if fa[0] == 'k' or fb[0] == 'k':
                return False
            return self.decide(st, mk_eq(fa if fa[0] == 't' else T('v', fa), fb if fb[0] == 't' else T('v', fb)))
        return self.decide(st, mk_eq(T('v', fa), T('v', fb)))

    def known_type(self, st, v):
        if v[0] == 'k':
            return v[1]
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, DictO):
                return 'dict'
            if isinstance(o, SetO):
                return 'set'
            if isinstance(o, ListO):
                return o.kind
            return 'obj'
        if v[0] == 't':
            ty = st.facts.types(v)
            if ty and len(ty) == 1:
                return next(iter(ty))
        if v[0] == 'tup':
            return 'tuple'
        return None

    def contains(self, st, x, c):
        """x in c"""
        k = c[0]
        if k == 'tup':
            return self.in_items(st, x, c[1])
        if k == 'k':
            if c[1] == 'str':
                if x[0] == 'k':
                    if x[1] != 'str':
                        self.raise_(st, 'TypeError')
                    return x[2] in c[2]
                if len(c[2]) == 0:
                    return self.decide(st, mk_one(x, [EMPTYS])) if x[0] == 't' else False
                return self.decide(st, ('in', x, c))
            if c[1] in ('NoneType', 'int', 'bool', 'float'):
                self.raise_(st, 'TypeError')
            if c[1] in ('list', 'tuple'):
                return self.in_items(st, x, c[2])
            return self.decide(st, ('in', self.freeze(st, x), c))
        if k == 'r':
            o = st.obj(c)
            if isinstance(o, DictO):
                kx = self.key(st, x)
                if kx[0] == "t" and o.base is None and not o.layers and o.conc and all(c[0] == "k" and e not in (DEL, MISS) and e[0] != "ite" for c, e in o.conc.items()):
                    may = o.conc
                    if kx[1] == 'concat':
                        eqs = [(c, mk_eq(kx, c)) for c in o.conc]
                        if any(q == ('const', True) for c, q in eqs):
                            return True
                        may = [c for c, q in eqs if q != ('const', False)]
                    return self.decide(st, mk_one(kx, may), False) if may else False
                r = self.dict_get(st, o, kx) is not MISS
                if r and o.base is not None and not o.layers and not o.conc and st.facts.lin.get(((T('len', o.base), 1),), (None, None))[1] is not None:
                    self.b_len(st, [c], {})     # so many members it has at least
                return r
            if isinstance(o, ListO):
                return self.in_items(st, x, o.items)
            if isinstance(o, InstO):
                m = self.find_attr(st, o.cls, '__contains__')
                if m is not None:
                    return self.truth(st, self.call(st, ('bm', m, c), [x], {}))
                if '$dict' in o.attrs:
                    return self.contains(st, x, o.attrs['$dict'])
                m = self.find_attr(st, o.cls, '__iter__')
                if m is not None:
                    return self.contains(st, x, self.call(st, ('bm', m, c), [], {}))
        if k == 'dv':
            if c[1] == 'keys':
                return self.dict_get(st, c[2], self.key(st, x)) is not MISS
            if c[1] == 'values':
                return self.in_items(st, x, self.view_pieces(st, c))
        if k == 't':
            if c[1] == 'dct':
                return self.dict_get(st, c[2], self.key(st, x)) is not MISS
            if c[1] == 'listof':
                return self.contains(st, x, c[2]) if isinstance(c[2], tuple) and c[2][0] == 't' else self.decide(st, ('in', self.freeze(st, x), c))
            ct = self.known_type(st, c)
            if ct in ('NoneType', 'int', 'bool', 'float'):
                self.raise_(st, 'TypeError')
            fx = self.freeze(st, x)
            if ct == 'str' and fx == EMPTYS:
                return True
            if c[1] == 'concat' and fx[0] == 'k' and fx[1] == 'str':
                if any(p[0] == 'k' and p[1] == 'str' and fx[2] in p[2] for p in c[2]):
                    return True
                if len(fx[2]) == 1:
                    return any(self.contains(st, x, p) for p in c[2] if p[0] == 't')
            return self.decide(st, ('in', fx, c))
        if k in ('ext', 'bi'):
            return self.decide(st, ('in', self.freeze(st, x), T('v', c)))
        raise Undecided('membership in %s' % (k,))

    def in_items(self, st, x, items):
        fx = self.const_val(st, x) or self.freeze(st, x)
        consts = []
        rest = []
        for i in items:
            if i[0] == 'gen' or i[0] == 'maybe':
                rest.append(i)
                continue
            c = self.const_val(st, i)
            if c is not None:
                consts.append(c)
            else:
                rest.append(i)
        if consts:
            if fx[0] == 'k':
                for c in consts:
                    try:
                        if _pyval(c) == _pyval(fx):
                            return True
                    except Exception:
                        if c == fx:
                            return True
            elif x[0] == 'r' and isinstance(st.obj(x), (InstO, ListO, DictO)):
                for c in consts:
                    if self.equal(st, x, c):
                        return True
            elif fx[0] == 't':
                if fx[1] == 'concat':
                    eqs = [mk_eq(fx, c) if c[0] == 'k' and c[1] == 'str' else ('const', False) for c in consts]
                    if ('const', True) in eqs:
                        return True
                    consts = [c for c, e in zip(consts, eqs) if e != ('const', False)]
                if consts and self.decide(st, mk_one(fx, consts)):
                    return True
        for i in rest:
            if i[0] == 'maybe':
                if self.decide_lit(st, i[1], i[2]) and self.equal(st, x, i[3]):
                    return True
                continue
            if i[0] == 'gen':
                _, e, src, conds, elt = i
                if elt == e:
                    if not self.src_has(st, src, fx):
                        continue
                    ok = True
                    for a, v in conds:
                        if self.decide(st, subst_atom(a, e, fx)) != v:
                            ok = False
                            break
                    if ok:
                        return True
                    continue
                # exists element whose image equals x
                if self.gen_image_has(st, i, x, fx):
                    return True
                continue
            if self.equal(st, x, i):
                return True
        return False

    def gen_image_has(self, st, g, x, fx):
        _, e, src, conds, elt = g
        for w in self.witnesses(st, src):
            if not self.src_has(st, src, w):
                continue
            if all(self.decide(st, subst_atom(a, e, w)) == v for a, v in conds) and self.equal(st, subst(elt, e, w), x):
                return True
        at = ('in', fx, T('listof', g))
        r = st.facts.decide(at)
        if r is not None:
            return r
        if self.choose(2) == 0:
            w = self.phi('elem')
            self.assume_member(st, src, w)
            for a, v in conds:
                self.assume(st, subst_atom(a, e, w), v)
            if not self.equal(st, subst(elt, e, w), x):
                raise Infeasible()
            return True
        self.assume(st, at, False)
        if not conds and elt[0] == 't' and fx[0] in ('k', 't'):
            self.add_tmpl(st, src, e, ((mk_eq(elt, fx), False),))
        return False

    def key(self, st, x):
        if x[0] == 'r':
            o = st.obj(x)
            if isinstance(o, (DictO, ListO)):
                self.raise_(st, 'TypeError', K('unhashable type'))
        f = self.freeze(st, x)
        if f[0] == 't':
            c = st.facts.const(f)
            if c is not None:
                return c
        if f[0] == 'k' and f[1] in ('list', 'dict'):
            self.raise_(st, 'TypeError', K('unhashable type'))
        return f

    def identical(self, st, a, b):
        if a == b:
            return True
        if a[0] == 'k' and b[0] == 'k':
            return a == b
        for x, y in ((a, b), (b, a)):
            if x[0] == 'k':
                if y[0] == 't':
                    return self.decide(st, mk_one(y, [x]))
                return False
        if a[0] == 't' and b[0] == 't':
            return self.decide(st, mk_eq(a, b))
        if a[0] == 't' or b[0] == 't':
            t, o = (a, b) if a[0] == 't' else (b, a)
            if o[0] == 'r':
                return False
            return self.decide(st, mk_eq(t, T('v', o)))
        return False


def _simple(o):
    return not any(i[0] in ('gen', 'maybe') for i in o.items)


def _pyval(c):
    if c[1] in ('list', 'tuple'):
        r = [_pyval(x) for x in c[2]]
        return r if c[1] == 'list' else tuple(r)
    if c[1] == 'dict':
        return {}
    return c[2]
