"""Abstract domain: values, heap objects, fact store.

Values are hashable tuples:
  ('k', typename, v)          constant
  ('t', op, *args)            symbolic (opaque but canonical) term
  ('tup', (v, ...))           tuple
  ('r', id)                   reference to a heap object (InstO, DictO, ListO, SetO)
  ('fn', key, encl, defaults, kwdefaults)   function defined in analysed source
  ('bm', fn, self)            bound method
  ('cls', qual)               class defined in analysed source
  ('mod', name)               analysed module
  ('ext', dotted)             external module / function / class
  ('bi', name)                builtin
  ('exc', cls, args)          exception instance
  ('dv', kind, DictO)         dict view snapshot (keys/items/values)
  ('static', fn) ('clsm', fn) ('prop', fn)
  ('super', qual, self)
  ('spec', name)              helper of the rule language
"""

DEL = ('DEL',)
MISS = ('MISS',)


def K(v):
    return ('k', type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
EMPTYS = K('')


def T(op, *args):
    return ('t', op) + args


def is_k(v):
    return v[0] == 'k'


def is_t(v):
    return v[0] == 't'


_ids = {}


def tid(v):
    n = _ids.get(v)
    if n is None:
        n = len(_ids)
        _ids[v] = n
    return n


_mention_cache = {}


def mentions(v, x):
    """Does value/term v contain x as a subterm?"""
    if v == x:
        return True
    if not isinstance(v, tuple):
        if isinstance(v, DictO):
            return any(mentions(y, x) for y in v.parts())
        if isinstance(v, frozenset):
            return any(mentions(y, x) for y in v)
        return False
    if v and v[0] == 'k':
        return False
    key = (id(v), x)
    for y in v:
        if isinstance(y, (tuple, DictO, frozenset)) and mentions(y, x):
            return True
    return False


def subst(v, x, y):
    if v == x:
        return y
    if isinstance(v, tuple):
        if v and v[0] == 'k':
            return v
        changed = False
        out = []
        for e in v:
            if isinstance(e, (tuple, DictO, frozenset)):
                n = subst(e, x, y)
                if n is not e:
                    changed = True
                out.append(n)
            else:
                out.append(e)
        return tuple(out) if changed else v
    if isinstance(v, DictO):
        base = subst(v.base, x, y) if v.base is not None else None
        layers = subst(v.layers, x, y)
        conc = {}
        ch = base is not v.base or layers is not v.layers
        for k_, e in v.conc.items():
            nk = subst(k_, x, y)
            ne = subst(e, x, y)
            if nk is not k_ or ne is not e:
                ch = True
            conc[nk] = ne
        return DictO(base, layers, conc) if ch else v
    if isinstance(v, frozenset):
        n = frozenset(subst(e, x, y) for e in v)
        return n if n != v else v
    return v


class InstO:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs

    def set(self, name, val):
        a = dict(self.attrs)
        a[name] = val
        return InstO(self.cls, a)


class DictO:
    """base: None (empty) or a term whose keys/values are unknown.
    layers: tuple of ('set', keyterm, val) ('delk', keyterm) ('upd', DictO|term)
            ('each', kv, coll, cases) applied in order on the base
    conc: ordered overlay key -> entry (value | DEL | ('ite', atom, e1, e2) | MISS)"""
    __slots__ = ('base', 'layers', 'conc', '_h')

    def __init__(self, base=None, layers=(), conc=None):
        self.base = base
        self.layers = layers
        self.conc = conc if conc is not None else {}
        self._h = None

    def canon(self):
        return (self.base, self.layers, tuple(self.conc.items()))

    def parts(self):
        if self.base is not None:
            yield self.base
        yield self.layers
        for k_, e in self.conc.items():
            yield k_
            yield e

    def __eq__(self, o):
        return self is o or (isinstance(o, DictO) and self.base == o.base and self.layers == o.layers
                             and list(self.conc.items()) == list(o.conc.items()))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.base, self.layers, tuple(self.conc.keys())))
        return self._h

    def simple(self):
        """Fully concrete: all keys known"""
        return self.base is None and not self.layers and all(
            k_[0] in ('k', 'cls', 'tup', 'bi', 'ext', 'fn') and e is not MISS and e[0] != 'ite' for k_, e in self.conc.items())

    def items(self):
        return [(k_, e) for k_, e in self.conc.items() if e != DEL]

    def put(self, key, entry):
        c = dict(self.conc)
        if key[0] in ('t',) and c and any(k_ != key for k_ in c):
            # symbolic key: push overlay down to keep recency order
            lay = self.layers + (('ov', tuple(c.items())),)
            return DictO(self.base, lay, {key: entry})
        if key[0] != 't' and any(k_[0] == 't' for k_ in c):
            lay = self.layers + (('ov', tuple(c.items())),)
            return DictO(self.base, lay, {key: entry})
        if entry == DEL and self.base is None and not self.layers:
            c.pop(key, None)
        else:
            if key in c and c[key] == DEL:
                del c[key]
            c[key] = entry
        return DictO(self.base, self.layers, c)

    def push(self, layer):
        lay = self.layers
        if self.conc:
            lay = lay + (('ov', tuple(self.conc.items())),)
        return DictO(self.base, lay + (layer,), {})

    def __repr__(self):
        return 'DictO(%r,%r,%r)' % (self.base, self.layers, self.conc)


class ListO:
    """items: tuple of values; an entry ('seg', coll) stands for all elements of a symbolic collection,
    ('comp', kv, coll, conds, elt) for a mapped/filtered one."""
    __slots__ = ('items', 'kind')

    def __init__(self, items=(), kind='list'):
        self.items = tuple(items)
        self.kind = kind

    def simple(self):
        return not any(i[0] in ('seg', 'comp') for i in self.items)


class SetO(ListO):
    __slots__ = ()

    def __init__(self, items=(), kind='set'):
        seen = []
        s = set()
        for i in items:
            if i not in s:
                s.add(i)
                seen.append(i)
        ListO.__init__(self, seen, 'set')


class Infeasible(Exception):
    pass


ARITH = ('add', 'sub', 'mul', 'neg', 'lin', 'NOW')


def lin_of(v):
    """value -> (dict term->coef, const) or None when not numeric-looking"""
    if is_k(v):
        if v[1] in ('int', 'bool'):
            return {}, int(v[2])
        if v[1] == 'float' and v[2] == int(v[2]):
            return {}, int(v[2])
        return None
    if is_t(v):
        if v[1] == 'add':
            a, b = lin_of(v[2]), lin_of(v[3])
            if a is None or b is None:
                return None
            return _ladd(a, b, 1)
        if v[1] == 'sub':
            a, b = lin_of(v[2]), lin_of(v[3])
            if a is None or b is None:
                return None
            return _ladd(a, b, -1)
        if v[1] == 'neg':
            a = lin_of(v[2])
            if a is None:
                return None
            return _ladd(({}, 0), a, -1)
        if v[1] == 'mul':
            a, b = lin_of(v[2]), lin_of(v[3])
            if a is not None and b is not None:
                if not a[0]:
                    return {t: c * a[1] for t, c in b[0].items() if c * a[1]}, b[1] * a[1]
                if not b[0]:
                    return {t: c * b[1] for t, c in a[0].items() if c * b[1]}, a[1] * b[1]
            return {v: 1}, 0
        return {v: 1}, 0
    return None


def _ladd(a, b, s):
    d = dict(a[0])
    for t, c in b[0].items():
        n = d.get(t, 0) + s * c
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return d, a[1] + s * b[1]


def lin_term(l):
    """canonical value for a linear form"""
    d, c = l
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return T('lin', tuple(sorted(d.items(), key=lambda x: tid(x[0]))), c)


def py_types_of_const(v):
    return {'str': 'str', 'int': 'int', 'bool': 'bool', 'float': 'float', 'NoneType': 'NoneType',
            'bytes': 'bytes'}.get(v[1], v[1])


SUBTYPES = {'bool': {'bool', 'int', 'object'}, 'int': {'int', 'object'}, 'str': {'str', 'object'},
            'float': {'float', 'object'}, 'NoneType': {'NoneType', 'object'}, 'list': {'list', 'object'},
            'dict': {'dict', 'object'}, 'tuple': {'tuple', 'object'}, 'bytes': {'bytes', 'object'},
            'set': {'set', 'object'}, 'datetime': {'datetime', 'object'}, 'Message': {'Message', 'object'}, 'complex': {'complex', 'object'}, 'bytearray':{'bytearray','object'}, 'frozenset': {'frozenset','object'}}


OBJECTS = frozenset({'jws', 'jwe', 'jwsjwt', 'jwejwt', 'JWS', 'JWE', 'JWT'})       # never None, never a plain value


class Facts:
    """Conjunction of literals with light theory (constants, membership, types, integer bounds)."""
    __slots__ = ('f', 'dom', 'lin', 'tmpl', 'log')

    def __init__(self):
        self.f = {}      # atom -> bool
        self.dom = {}    # term -> (pos frozenset | None, neg frozenset)
        self.lin = {}    # vec -> (lo, hi)
        self.tmpl = {}   # collection -> tuple of (kv, conds)
        self.log = ()

    def copy(self):
        n = Facts()
        n.f = dict(self.f)
        n.dom = dict(self.dom)
        n.lin = dict(self.lin)
        n.tmpl = dict(self.tmpl)
        n.log = self.log
        return n

    # ---- queries
    def const(self, t):
        if is_k(t):
            return t
        d = self.dom.get(t)
        if d and d[0] is not None and len(d[0]) == 1:
            (c,) = d[0]
            return c
        return None

    def bounds(self, t):
        lo, hi = self.lin.get(((t, 1),), (None, None))
        d = self.dom.get(t)
        if d:
            if d[0] is not None and all(c[1] in ('int', 'bool') for c in d[0]):
                vs = [int(c[2]) for c in d[0]]
                if vs:
                    lo = min(vs) if lo is None else max(lo, min(vs))
                    hi = max(vs) if hi is None else min(hi, max(vs))
            if lo is not None:
                while K(lo) in d[1]:
                    lo += 1
            if hi is not None:
                while K(hi) in d[1]:
                    hi -= 1
        if is_t(t) and t[1] == 'len' and (lo is None or lo < 0):
            lo = 0
            x = self.decide(('truthy', t[2]))
            if x is True:
                lo = 1
            elif x is False:
                hi = 0
        return lo, hi

    def vec_bounds(self, vec):
        lo, hi = self.lin.get(vec, (None, None))
        # interval arithmetic over single terms
        slo = shi = 0
        for t, c in vec:
            l, h = self.bounds(t) if len(vec) > 1 or c != 1 else self.bounds(t)
            if c < 0:
                l, h = h, l
            slo = None if slo is None or l is None else slo + c * l
            shi = None if shi is None or h is None else shi + c * h
        if slo is not None:
            lo = slo if lo is None else max(lo, slo)
        if shi is not None:
            hi = shi if hi is None else min(hi, shi)
        # sum of two recorded bounds
        if len(vec) > 1 and len(self.lin) <= 16:
            tgt = dict(vec)
            for u, (ul, uh) in self.lin.items():
                if u == vec:
                    continue
                for s in (1, -1):
                    d = _ladd((tgt, 0), (dict(u), 0), -s)[0]
                    if len(d) > len(tgt) + 1:
                        continue
                    w, ws, _ = self._norm((d, 0))
                    if not w:
                        wl = wh = 0
                    else:
                        wl, wh = self.lin.get(w, (None, None))
                        if len(w) == 1 and w[0][1] == 1:
                            wl, wh = self.bounds(w[0][0])
                    if ws < 0:
                        wl, wh = None if wh is None else -wh, None if wl is None else -wl
                    a, b = (ul, uh) if s > 0 else (None if uh is None else -uh, None if ul is None else -ul)
                    if a is not None and wl is not None and (lo is None or a + wl > lo):
                        lo = a + wl
                    if b is not None and wh is not None and (hi is None or b + wh < hi):
                        hi = b + wh
        return lo, hi

    def decide(self, atom):
        r = self.f.get(atom)
        if r is not None:
            return r
        op = atom[0]
        if op == 'const':
            return atom[1]
        if op == 'one':
            _, x, S = atom
            if is_k(x):
                return x in S
            d = self.dom.get(x)
            if d:
                pos, neg = d
                if pos is not None:
                    if pos <= S:
                        return True
                    if not (pos & S):
                        return False
                if S <= neg:
                    return False
            # other knowledge about x excludes members
            rest = [c for c in S if (not d or c not in d[1]) and not self._excluded(x, c)]
            if not rest:
                return False
            lo, hi = self.lin.get(((x, 1),), (None, None))
            if lo is not None and lo == hi and K(lo) in S:
                return True
            return None
        if op == 'truthy':
            x = atom[1]
            c = self.const(x)
            if c is not None:
                return bool(c[2])
            d = self.dom.get(x)
            if d and d[0] is not None:
                b = {bool(c[2]) for c in d[0]}
                if len(b) == 1:
                    return b.pop()
            if is_t(x) and x[1] in ('len', 'listof'):
                return self.decide(('truthy', x[2]))
            if is_t(x) and x[1] in ('NOW', 'NOWF', 'utcnow', 'concat1', 'jwt', 'obj', 'm_compiled') or is_t(x) and x[1] in OBJECTS:
                return True
            lo, hi = self.lin.get(((x, 1),), (None, None))
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return True
            if is_t(x):
                for a, v in self.f.items():
                    if v and a[0] == 'in' and a[2] == x:
                        return True
            return None
        if op == 'in' and atom[1][0] == 'k':
            t = ('t', 'len', atom[2])
            d = self.dom.get(t)
            hi = max((c[2] for c in d[0]), default=None) if d and d[0] is not None else self.lin.get(((t, 1),), (None, None))[1]
            if hi is not None and self.counted(atom[2]):
                if len([1 for a, v in self.f.items() if v and a[0] == 'in' and a[2] == atom[2] and a[1][0] == 'k']) >= hi:
                    return False
        if op == 'isa':
            _, x, ty = atom
            tys = self.types(x)
            if tys is not None:
                r = {ty in SUBTYPES.get(t_, {t_, 'object'}) for t_ in tys}
                if len(r) == 1:
                    return r.pop()
            for k2, v in (((a[2]), v) for a, v in self.f.items() if a[0] == 'isa' and a[1] == x):
                if v:
                    if ty in SUBTYPES.get(k2, {k2, 'object'}):
                        return True
                    if k2 in SUBTYPES.get(ty, {ty}):
                        continue
                    return False
                else:
                    if k2 in SUBTYPES.get(ty, {ty}):
                        return False
            return None
        if op == 'eq':
            _, a, b = atom
            if a == b:
                return True
            ca, cb = self.const(a), self.const(b)
            if ca is not None and cb is not None:
                return ca == cb
            if ca is not None:
                return self.decide(('one', b, frozenset([ca])))
            if cb is not None:
                return self.decide(('one', a, frozenset([cb])))
            da, db = self.dom.get(a), self.dom.get(b)
            if da and db and da[0] is not None and db[0] is not None and not (da[0] & db[0]):
                return False
            ta, tb = self.types(a), self.types(b)
            if ta and tb and not (ta & tb) and not ({'int', 'bool', 'float'} & ta and {'int', 'bool', 'float'} & tb):
                return False
            x, y = self.decide(('truthy', a)), self.decide(('truthy', b))
            if x is not None and y is not None and x != y:
                return False
            la, lb = lin_of(a), lin_of(b)
            if la and lb and la[0] and lb[0] and (a[0:2] != b[0:2] or a[1] in ('lin',)):
                l = _ladd(la, lb, -1)
                if l[0]:
                    v, s, c = self._norm(l)
                    lo, hi = self.vec_bounds(v)
                    n = -c * s
                    if lo is not None and lo > n or hi is not None and hi < n:
                        return False
                    if lo is not None and lo == hi == n:
                        return True
            return None
        if op == 'in':
            _, x, c = atom
            if self.f.get(('truthy', c)) is False:
                return False
            cc = self.const(c)
            if cc is not None and cc[1] in ('str',):
                cx = self.const(x)
                if cx is not None and cx[1] == 'str':
                    return cx[2] in cc[2]
            if cc is not None and cc[1] == 'NoneType':
                return False
            cx = self.const(x)
            if cx is not None and cx != x:
                r = self.f.get(('in', cx, c))
                if r is not None:
                    return r
            return None
        if op == 'le':
            vec, c = atom[1], atom[2]   # vec + c <= 0
            if not vec:
                return c <= 0
            lo, hi = self.vec_bounds(vec)
            if hi is not None and hi <= -c:
                return True
            if lo is not None and lo > -c:
                return False
            return None
        return None

    def _excluded(self, x, c):
        """Is x == c impossible given non-dom facts?"""
        if is_t(x) and x[1] in OBJECTS:
            return True
        tr = self.f.get(('truthy', x))
        if tr is not None and c[1] in ('NoneType', 'bool', 'int', 'str', 'float') and bool(c[2]) != tr:
            return True
        tys = self.types(x)
        if tys is not None:
            ct = py_types_of_const(c)
            if ct not in tys and not (ct == 'bool' and 'int' in tys and False):
                if not (ct == 'int' and 'float' in tys):
                    return True
        if c[1] in ('int',):
            lo, hi = self.lin.get(((x, 1),), (None, None))
            if is_t(x) and x[1] == 'len':
                lo, hi = self.bounds_nodom(x)
            if lo is not None and c[2] < lo or hi is not None and c[2] > hi:
                return True
        for a, v in self.f.items():
            if a[0] == 'isa' and a[1] == x:
                sub = a[2] in SUBTYPES.get(py_types_of_const(c), ())
                if v != sub:
                    return True
            elif v and a[0] == 'in' and a[2] == x and c[1] in ('NoneType', 'bool', 'int'):
                return True
            elif a[0] == 'in' and a[1] == x and self.f.get(('in', c, a[2])) is not None and self.f[('in', c, a[2])] != v:
                return True
        return False

    def counted(self, x):
        """is len(x) at least the number of different things known to be in x? (not so for texts)"""
        return is_t(x) and x[1] in ('map', 'body') or 'str' not in (self.types(x) or {'str'})

    def bounds_nodom(self, t):
        lo, hi = self.lin.get(((t, 1),), (None, None))
        if is_t(t) and t[1] == 'len':
            x = self.decide(('truthy', t[2]))
            if x is True:
                lo = max(lo or 1, 1)
            else:
                lo = max(lo or 0, 0)
                if x is False:
                    hi = 0
            n = len([1 for a, v in self.f.items() if v and a[0] == 'in' and a[2] == t[2] and a[1][0] == 'k'])
            if n > 1 and (lo or 0) < n and self.counted(t[2]):
                lo = n
        return lo, hi

    def types(self, x):
        """Known possible python types (set of names) of a value, or None"""
        if is_k(x):
            return {py_types_of_const(x)}
        if x[0] == 'tup':
            return {'tuple'}
        d = self.dom.get(x)
        if d and d[0] is not None:
            return {py_types_of_const(c) for c in d[0]}
        if is_t(x):
            op = x[1]
            if op in ('concat', 'fmt', 'str', 'strm', 'joinstr', 'jsondumps', 'urlencode', 'left_hash', 'urlpart', 'quote_plus'):
                return {'str'}
            if op in ('add', 'sub', 'mul') and all((self.types(y) or {'?'}) <= {'int', 'bool'} for y in x[2:] if isinstance(y, tuple)):
                return {'int'}
            if op in ('len', 'NOW', 'intof', 'lin', 'timegm', 'secs'):
                return {'int'}
            if op in ('strftime', 'strftimeus', 'strftimelocal'):
                return {'str'}
            if op == 'NOWF':
                return {'float'}
            if op in ('split', 'listof'):
                return {'list'}
            if op == 'typed':
                return {x[2]}
            if op == 'slice':
                t = self.types(x[2])
                if t and t <= {'str', 'list', 'tuple', 'bytes'}:
                    return t
            if op == 'm' and x[2] in ('timestamp', 'total_seconds'):
                return {'float'}
            if op == 'm' and x[2] in ('split', 'splitlines'):
                return {'list'}
            if op == 'm' and x[2] in ('format', 'strip', 'lower', 'upper', 'join', 'replace', 'strftime', 'isoformat', 'lstrip', 'rstrip'):
                return {'str'}
            r = None
            for a, v in self.f.items():
                if v and a[0] == 'in' and a[1] == x and is_t(a[2]) and (a[2][1] == 'split' or a[2][1] == 'm' and 'split' in str(a[2][2:4])):
                    return {'str'}
                if v and a[0] == 'isa' and a[1] == x and a[2] in SUBTYPES and a[2] != 'object':
                    s = {a[2]}
                    if a[2] == 'int':
                        s = {'int', 'bool'}
                        if self.f.get(('isa', x, 'bool')) is False:
                            s = {'int'}
                    if r is None or len(s) < len(r):
                        r = s
            return r
        return None

    def _norm(self, l):
        """linear form -> (vec, sign, const) with vec leading coef > 0"""
        d, c = l
        vec = tuple(sorted(d.items(), key=lambda x: tid(x[0])))
        if vec and vec[0][1] < 0:
            vec = tuple((t, -k) for t, k in vec)
            return vec, -1, c
        return vec, 1, c

    # ---- assume
    def assume(self, atom, val):
        """Adds a literal. Returns False when contradictory."""
        d = self.decide(atom)
        if d is not None:
            if d == val:
                return True
            return False
        op = atom[0]
        self.log = self.log + ((atom, val),)
        if op == 'one':
            _, x, S = atom
            pos, neg = self.dom.get(x, (None, frozenset()))
            if val:
                keep = S if pos is None else pos & S
                keep = frozenset(c for c in keep if c not in neg and not self._excluded(x, c))
                if not keep:
                    return False
                self.dom[x] = (keep, neg)
            else:
                neg = neg | S
                if pos is not None:
                    pos = pos - S
                    if not pos:
                        return False
                self.dom[x] = (pos, neg)
            return self._recheck(x)
        if op == 'eq':
            a, b = atom[1], atom[2]
            ca, cb = self.const(a), self.const(b)
            if ca is not None:
                return self.assume(('one', b, frozenset([ca])), val)
            if cb is not None:
                return self.assume(('one', a, frozenset([cb])), val)
            self.f[atom] = val
            if val and (a[1] in ARITH or b[1] in ARITH) and is_t(a) and is_t(b):
                la, lb = lin_of(a), lin_of(b)
                if la is not None and lb is not None:
                    l = _ladd(la, lb, -1)
                    if l[0]:
                        v, s, c = self._norm(l)
                        lo, hi = self.lin.get(v, (None, None))
                        n = -c * s
                        if lo is not None and lo > n or hi is not None and hi < n:
                            return False
                        self.lin[v] = (n, n)
            return True
        if op == 'le':
            vec, c = atom[1], atom[2]
            lo, hi = self.lin.get(vec, (None, None))
            if val:
                hi = -c if hi is None else min(hi, -c)
            else:
                lo = -c + 1 if lo is None else max(lo, -c + 1)
            if lo is not None and hi is not None and lo > hi:
                return False
            self.lin[vec] = (lo, hi)
            return True
        if op == 'truthy':
            x = atom[1]
            if is_t(x) and x[1] == 'len':
                return self.assume(('truthy', x[2]), val)
            self.f[atom] = val
            pos, neg = self.dom.get(x, (None, frozenset()))
            if pos is not None:
                pos = frozenset(c for c in pos if bool(c[2]) == val)
                if not pos:
                    return False
                self.dom[x] = (pos, neg)
            if not val:
                for a, v in list(self.f.items()):
                    if v and a[0] == 'in' and a[2] == x:
                        return False
            return True
        if op == 'in':
            self.f[atom] = val
            if val:
                x, c = atom[1], atom[2]
                for kv, pre, conds in self.tmpl.get(c, ()):
                    if any(self.decide(subst_atom(a, kv, x)) != v for a, v in pre):
                        continue
                    for a, v in conds:
                        if not self.assume(subst_atom(a, kv, x), v):
                            return False
            return True
        if op == 'isa':
            self.f[atom] = val
            return self._recheck(atom[1])
        self.f[atom] = val
        return True

    def _recheck(self, x):
        d = self.dom.get(x)
        if d and d[0] is not None:
            keep = frozenset(c for c in d[0] if not self._excluded(x, c))
            if not keep:
                return False
            if keep != d[0]:
                self.dom[x] = (keep, d[1])
            if len(keep) == 1:
                c = next(iter(keep))
                for a, v in list(self.f.items()):
                    if a[0] == 'in' and a[1] == x:
                        b = ('in', c, a[2])
                        e = self.decide(b)
                        if e is None:
                            self.f[b] = v
                        elif e != v:
                            return False
        return True

    def purge(self, x):
        self.f = {a: v for a, v in self.f.items() if not mentions(a, x)}
        self.dom = {t: v for t, v in self.dom.items() if not mentions(t, x)}
        self.lin = {t: v for t, v in self.lin.items() if not mentions(t, x)}

    @staticmethod
    def join(fs):
        r = fs[0].copy()
        for o in fs[1:]:
            r.f = {a: v for a, v in r.f.items() if o.f.get(a) == v or (a not in o.f and o.decide(a) == v)}
            nd = {}
            for t, (p, n) in r.dom.items():
                p2, n2 = o.dom.get(t, (None, frozenset()))
                pos = p | p2 if p is not None and p2 is not None else None
                # exclusions implied on the other side
                neg = frozenset(c for c in n if c in n2 or (p2 is not None and c not in p2) or o._excluded(t, c))
                neg |= frozenset(c for c in n2 if (p is not None and c not in p) or r._excluded(t, c))
                if pos is not None or neg:
                    nd[t] = (pos, neg)
            for t, (p2, n2) in o.dom.items():
                if t not in r.dom and n2:
                    neg = frozenset(c for c in n2 if r._excluded(t, c))
                    if neg:
                        nd[t] = (None, neg)
            r.dom = nd
            nl = {}
            for v, (lo, hi) in r.lin.items():
                lo2, hi2 = o.lin.get(v, (None, None))
                if len(v) == 1 and v[0][1] == 1:
                    lo2, hi2 = o.bounds(v[0][0])
                l = None if lo is None or lo2 is None else min(lo, lo2)
                h = None if hi is None or hi2 is None else max(hi, hi2)
                if l is not None or h is not None:
                    nl[v] = (l, h)
            r.lin = nl
            r.tmpl = {c: v for c, v in r.tmpl.items() if o.tmpl.get(c) == v}
            n = 0
            for a, b in zip(r.log, o.log):
                if a != b:
                    break
                n += 1
            common = set(o.log[n:])
            r.log = r.log[:n] + tuple(l for l in r.log[n:] if l in common)
        return r

    def key(self):
        return (frozenset(self.f.items()), frozenset(self.dom.items()), frozenset(self.lin.items()))


def subst_atom(a, x, y):
    n = subst(a, x, y)
    return renorm(n)


def mk_one(x, consts):
    return ('one', x, frozenset(consts))


def _parts(x):
    if x[0] == 't' and x[1] == 'concat':
        return list(x[2])
    return [x]


def _strip(a, b, front):
    """removes what two sequences of text parts have in common at one end; False: they differ there"""
    i = 0 if front else -1
    while a and b:
        x, y = a[i], b[i]
        if x == y:
            del a[i], b[i]
            continue
        if not (is_k(x) and is_k(y) and x[1] == y[1] == 'str'):
            return True
        u, v = x[2], y[2]
        n = min(len(u), len(v))
        if (u[:n] != v[:n]) if front else (u[len(u) - n:] != v[len(v) - n:]):
            return False
        for l, z in ((a, u), (b, v)):
            if len(z) == n:
                del l[i]
            else:
                l[i] = K(z[n:] if front else z[:len(z) - n])
    return True


def eq_concat(a, b):
    """equality of texts of which at least one is a concatenation; None: nothing in common"""
    pa, pb = _parts(a), _parts(b)
    if len(pa) == len(pb) == 1 or any(is_k(x) and x[1] != 'str' for x in pa + pb):
        return None
    n = len(pa) + len(pb)
    if not _strip(pa, pb, True) or not _strip(pa, pb, False):
        return ('const', False)
    if not pa and not pb:
        return ('const', True)
    for x, y in ((pa, pb), (pb, pa)):
        if not x and any(is_k(z) and z[2] for z in y):
            return ('const', False)
    if len(pa) + len(pb) == n and not (any(is_k(x) for x in pa) and len(pb) == 1 and is_k(pb[0]) or any(is_k(x) for x in pb) and len(pa) == 1 and is_k(pa[0])):
        return None
    pack = lambda p: EMPTYS if not p else p[0] if len(p) == 1 else T('concat', tuple(p))
    x, y = pack(pa), pack(pb)
    for u, v in ((x, y), (y, x)):
        if is_k(u) and v[0] == 't' and v[1] == 'concat':
            if sum(len(z[2]) for z in v[2] if is_k(z)) > len(u[2]):
                return ('const', False)
            return mk_one(v, [u])
    return mk_eq(x, y) if (x, y) != (a, b) else None


def mk_eq(a, b):
    if is_k(a) and is_k(b):
        return ('const', _keq(a, b))
    if a[0] == 't' and a[1] == 'concat' or b[0] == 't' and b[1] == 'concat':
        r = eq_concat(a, b)
        if r is not None:
            return r
    if is_k(a):
        return mk_one(b, [a])
    if is_k(b):
        return mk_one(a, [b])
    if a == b:
        return ('const', True)
    la, lb = lin_of(a), lin_of(b)
    if tid(a) > tid(b):
        a, b = b, a
    return ('eq', a, b)


def _keq(a, b):
    try:
        return a[2] == b[2]
    except Exception:
        return False


def mk_le(l):
    """linear form l <= 0"""
    d, c = l
    if not d:
        return ('const', c <= 0), True
    vec = tuple(sorted(d.items(), key=lambda x: tid(x[0])))
    # len special cases
    if len(vec) == 1 and is_t(vec[0][0]) and vec[0][0][1] == 'len':
        (t, k), = vec
        if k == 1 and c == 0:      # len <= 0
            return ('truthy', t[2]), False
        if k == -1 and c == 1:     # len >= 1
            return ('truthy', t[2]), True
        if k == -1 and c <= 0:
            return ('const', True), True
    from math import gcd
    g = 0
    for _, k in vec:
        g = gcd(g, abs(k))
    if g > 1:
        vec = tuple((t, k // g) for t, k in vec)
        c = -((-c) // g)
    if vec[0][1] < 0:
        # -v + c <= 0  <=>  v >= c  <=>  not (v <= c-1)  <=> not (v - (c-1) <= 0)
        vec2 = tuple((t, -k) for t, k in vec)
        return ('le', vec2, -(c - 1)), False
    return ('le', vec, c), True


def renorm(a):
    """re-normalise an atom after substitution"""
    if a[0] == 'one':
        if is_k(a[1]):
            return ('const', a[1] in a[2])
        return a
    if a[0] == 'eq':
        return mk_eq(a[1], a[2])
    if a[0] == 'truthy' and is_k(a[1]):
        return ('const', bool(a[1][2]))
    return a
