"""Expression dispatch."""
import ast
from .objects import *
from .domain import _ladd

_BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'fdiv', ast.Mod: 'mod', ast.BitOr: 'bor', ast.BitAnd: 'band',
        ast.BitXor: 'bxor', ast.Pow: 'pow', ast.RShift: 'shr', ast.LShift: 'shl', ast.MatMult: 'matmul'}


class Expr(Objects):

    def ev(self, n, st, ctx):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('analysis budget exceeded')
        self.node = n
        return getattr(self, 'e_' + type(n).__name__)(n, st, ctx)

    def e_Constant(self, n, st, ctx):
        if n.value is Ellipsis:
            return T('ellipsis')
        if isinstance(n.value, bytes):
            return ('k', 'bytes', n.value)
        return K(n.value)

    def e_Name(self, n, st, ctx):
        return self.lookup(st, ctx, n.id)

    def e_Attribute(self, n, st, ctx):
        v = self.ev(n.value, st, ctx)
        self.node = n
        return self.getattr(st, v, n.attr)

    def e_Subscript(self, n, st, ctx):
        v = self.ev(n.value, st, ctx)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, st, ctx) if n.slice.lower else NONE
            hi = self.ev(n.slice.upper, st, ctx) if n.slice.upper else NONE
            step = self.ev(n.slice.step, st, ctx) if n.slice.step else NONE
            return self.slice(st, v, lo, hi, step)
        i = self.ev(n.slice, st, ctx)
        self.node = n
        return self.getitem(st, v, i)

    def e_Starred(self, n, st, ctx):
        raise Undecided('starred')

    def e_NamedExpr(self, n, st, ctx):
        v = self.ev(n.value, st, ctx)
        self.assign(st, ctx, n.target, v)
        return v

    def e_Tuple(self, n, st, ctx):
        its = self.elts(n.elts, st, ctx)
        if any(i[0] in ('gen', 'maybe') for i in its):
            return st.new(ListO(its))
        return ('tup', tuple(its))

    def e_List(self, n, st, ctx):
        return st.new(ListO(self.elts(n.elts, st, ctx)))

    def e_Set(self, n, st, ctx):
        return st.new(SetO(self.elts(n.elts, st, ctx)))

    def elts(self, nodes, st, ctx):
        r = []
        for e in nodes:
            if isinstance(e, ast.Starred):
                r.extend(self.iterate(st, self.ev(e.value, st, ctx)))
            else:
                r.append(self.ev(e, st, ctx))
        return r

    def e_Dict(self, n, st, ctx):
        d = DictO()
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, st, ctx)
                s = self.as_dict(st, x)
                if s is None:
                    raise Undecided('** of unknown')
                d = self.dict_update(d, s, st)
            else:
                kk = self.key(st, self.ev(k, st, ctx))
                d = self.dput(st, d, kk, self.ev(v, st, ctx))
        return st.new(d)

    def dict_update(self, d, s, st=None):
        if s.base is None and not s.layers and not any(e[0] == 'ite' for e in s.conc.values()):
            for k, e in s.conc.items():
                if e not in (DEL, MISS):
                    d = self.dput(st, d, k, e) if st is not None else d.put(k, e)
            return d
        if d.base is None and not d.layers and not d.conc:
            return s
        if s.base is None and not s.layers:
            # guarded entries
            for k, e in s.conc.items():
                d = d.put(k, self.guard(d, k, e))
            return d
        return d.push(('upd', s))

    def guard(self, d, k, e):
        """entry e of an update source applied over d's entry"""
        if e[0] == 'ite':
            return ('ite', e[1], self.guard(d, k, e[2]), self.guard(d, k, e[3]))
        if e in (DEL, MISS):
            o = d.conc.get(k)
            if o is not None:
                return o
            return DEL if d.base is None and not d.layers else MISS
        return e

    def e_IfExp(self, n, st, ctx):
        if self.truth(st, self.ev(n.test, st, ctx)):
            return self.ev(n.body, st, ctx)
        return self.ev(n.orelse, st, ctx)

    def e_BoolOp(self, n, st, ctx):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, st, ctx)
            if i < len(n.values) - 1:
                if self.truth(st, v) != is_and:
                    return v
        return v

    def e_UnaryOp(self, n, st, ctx):
        v = self.ev(n.operand, st, ctx)
        if isinstance(n.op, ast.Not):
            return FALSE if self.truth(st, v) else TRUE
        if isinstance(n.op, ast.USub):
            if v[0] == 'k':
                return K(-v[2])
            l = lin_of(v)
            if l is not None:
                return lin_value(({t: -c for t, c in l[0].items()}, -l[1]))
            return T('neg', self.freeze(st, v))
        if isinstance(n.op, ast.UAdd):
            return v
        return T('inv', self.freeze(st, v))

    def e_Compare(self, n, st, ctx):
        l = self.ev(n.left, st, ctx)
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn, st, ctx)
            self.node = n
            if len(n.ops) == 1:
                t = self.compare_term(st, op, l, r)
                if t is not None:
                    return t
            if not self.compare(st, op, l, r):
                return FALSE
            l = r
        return TRUE

    def compare_term(self, st, op, l, r):
        """a comparison that does not give a truth value"""
        return None

    def compare(self, st, op, l, r):
        if isinstance(op, ast.Eq):
            return self.equal(st, l, r)
        if isinstance(op, ast.NotEq):
            return not self.equal(st, l, r)
        if isinstance(op, ast.In):
            return self.contains(st, l, r)
        if isinstance(op, ast.NotIn):
            return not self.contains(st, l, r)
        if isinstance(op, ast.Is):
            return self.identical(st, l, r)
        if isinstance(op, ast.IsNot):
            return not self.identical(st, l, r)
        return self.order(st, op, l, r)

    def order(self, st, op, l, r):
        if l[0] == 'k' and r[0] == 'k':
            import operator
            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            try:
                return f(l[2], r[2])
            except TypeError:
                self.raise_(st, 'TypeError')
        # sets
        for x in (l, r):
            if x[0] == 'r' and isinstance(st.obj(x), SetO) or x[0] == 'dv' and x[1] == 'keys':
                return self.set_order(st, op, l, r)
        lt, rt = self.freeze(st, l), self.freeze(st, r)
        for x in (lt, rt):
            if x == NONE or (x[0] == 'k' and x[1] == 'NoneType'):
                self.raise_(st, 'TypeError', K('unorderable'))
            ty = st.facts.types(x) if x[0] == 't' else None
            if ty == {'NoneType'}:
                self.raise_(st, 'TypeError', K('unorderable'))
        a, b = lin_of(lt), lin_of(rt)
        if a is None or b is None or self.known_type(st, lt) == 'str' or self.known_type(st, rt) == 'str' or \
                any(t[1] == 'structtime' for t in list(a[0]) + list(b[0])):
            # unordered domain: canonical 'lt' atom
            if isinstance(op, ast.Gt):
                return self.decide(st, ('plt', rt, lt))
            if isinstance(op, ast.Lt):
                return self.decide(st, ('plt', lt, rt))
            if isinstance(op, ast.LtE):
                return not self.decide(st, ('plt', rt, lt))
            return not self.decide(st, ('plt', lt, rt))
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
        strict = isinstance(op, (ast.Lt, ast.Gt))
        # a <= b   or a < b  ==  a + 1 <= b  on integers
        l_ = _ladd(a, b, -1)
        if strict:
            l_ = (l_[0], l_[1] + 1)
        atom, pol = mk_le(l_)
        if atom[0] == 'const':
            return atom[1] == pol
        return self.decide(st, atom) == pol

    def set_order(self, st, op, l, r):
        # a <= b : every element of a is in b ; strict variants add inequality
        if isinstance(op, (ast.Gt, ast.GtE)):
            l, r = r, l
        sub = not self.exists_not_in(st, l, r)
        if isinstance(op, (ast.LtE, ast.GtE)):
            return sub
        return sub and self.exists_not_in(st, r, l)

    def exists_not_in(self, st, a, b):
        d = self.set_diff(st, a, b)
        return self.truth(st, d)

    def e_BinOp(self, n, st, ctx):
        l = self.ev(n.left, st, ctx)
        r = self.ev(n.right, st, ctx)
        self.node = n
        return self.binop(st, type(n.op), l, r)

    def binop(self, st, op, l, r):
        lc, rc = l, r
        for a, b, m in ((l, r, '__%s__'), (r, l, '__r%s__')):
            if a[0] == 'r' and isinstance(st.obj(a), InstO):
                f = self.find_attr(st, st.obj(a).cls, m % {'bor': 'or', 'band': 'and', 'div': 'truediv'}.get(_BIN[op], _BIN[op]))
                if f is not None:
                    return self.call(st, ('bm', f, a), [b], {})
        if op is ast.Mod and (l[0] == 'k' and l[1] == 'str'):
            return self.percent(st, l[2], r)
        if l[0] == 'k' and r[0] == 'k':
            return self.const_bin(st, op, l, r)
        lo = st.obj(l) if l[0] == 'r' else None
        ro = st.obj(r) if r[0] == 'r' else None
        if isinstance(lo, SetO) or isinstance(ro, SetO) or (l[0] == 'dv' and op in (ast.Sub, ast.BitAnd, ast.BitOr)):
            if op is ast.Sub:
                return self.set_diff(st, l, r)
            if op is ast.BitOr:
                return st.new(SetO(self.iterate(st, l) + self.iterate(st, r)))
            if op is ast.BitAnd:
                return self.set_and(st, l, r)
        if isinstance(lo, DictO) and isinstance(ro, DictO) and op is ast.BitOr:
            return st.new(self.dict_update(lo, ro, st))
        if op is ast.Add:
            if isinstance(lo, ListO) and isinstance(ro, ListO):
                return st.new(ListO(lo.items + ro.items))
            if isinstance(lo, ListO) or isinstance(ro, ListO):
                if l[0] in ('k', 'tup') or r[0] in ('k', 'tup'):
                    if not (l[0] == 'k' and l[1] in ('list',)) and not (r[0] == 'k' and r[1] == 'list'):
                        self.raise_(st, 'TypeError', K('can only concatenate list'))
                return st.new(ListO(self.iterate(st, l) + self.iterate(st, r)))
            if l[0] == 'tup' and r[0] == 'tup':
                return ('tup', l[1] + r[1])
            if self.is_str(st, l) or self.is_str(st, r):
                for x in (l, r):
                    if x[0] == 'k' and x[1] != 'str' or x[0] == 'r':
                        self.raise_(st, 'TypeError', K('can only concatenate str'))
                return self.concat(st, [l, r])
        if op is ast.Mult:
            for a, b in ((l, r), (r, l)):
                if a[0] == 'r' and isinstance(st.obj(a), ListO) and b[0] == 'k' and b[1] == 'int':
                    return st.new(ListO(st.obj(a).items * b[2]))
        lt, rt = self.freeze(st, l), self.freeze(st, r)
        for x in (lt, rt):
            if x == NONE:
                self.raise_(st, 'TypeError', K('unsupported operand'))
        if op is ast.Sub:
            x = self.hook_sub(st, lt, rt)
            if x is not None:
                return x
        if op in (ast.Add, ast.Sub):
            a, b = lin_of(lt), lin_of(rt)
            if a is not None and b is not None and not self.nonnum(lt) and not self.nonnum(rt):
                return lin_value(_ladd(a, b, 1 if op is ast.Add else -1))
        if op is ast.Mult:
            a, b = lin_of(lt), lin_of(rt)
            if a is not None and b is not None:
                if not a[0]:
                    a, b = b, a
                if not b[0]:
                    return lin_value(({t: c * b[1] for t, c in a[0].items() if c * b[1]}, a[1] * b[1]))
        return T(_BIN[op], lt, rt)

    def nonnum(self, t):
        return t[0] == 't' and t[1] in ('utcnow', 'epoch0', 'tdelta', 'datetime', 'dtadd', 'dtsub', 'gmtime')

    def hook_sub(self, st, l, r):
        return None

    def const_bin(self, st, op, l, r):
        import operator
        f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
             ast.Mod: operator.mod, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.Pow: operator.pow,
             ast.LShift: operator.lshift, ast.RShift: operator.rshift}[op]
        if l[1] in ('list', 'tuple', 'dict') or r[1] in ('list', 'tuple', 'dict'):
            return T(_BIN[op], l, r)
        try:
            return K(f(l[2], r[2]))
        except TypeError:
            self.raise_(st, 'TypeError')
        except ZeroDivisionError:
            self.raise_(st, 'ZeroDivisionError')

    def is_str(self, st, v):
        return v[0] == 'k' and v[1] == 'str' or v[0] == 't' and self.known_type(st, v) == 'str'

    def concat(self, st, parts):
        """canonical string concatenation"""
        out = []
        for p in parts:
            if p[0] == 't' and p[1] == 'concat':
                ps = p[2]
            else:
                ps = (p,)
            for x in ps:
                if x[0] == 'k':
                    if x[2] == '':
                        continue
                    if out and out[-1][0] == 'k':
                        out[-1] = K(out[-1][2] + x[2])
                        continue
                out.append(self.freeze(st, x))
        if not out:
            return EMPTYS
        if len(out) == 1 and (out[0][0] == 'k' or self.known_type(st, out[0]) == 'str'):
            return out[0]
        return T('concat', tuple(out))

    def tostr(self, st, v):
        """str(v)"""
        if v[0] == 'k':
            if v[1] in ('list', 'dict', 'tuple'):
                return T('str', v)
            return K(str(v[2]))
        if v[0] == 't':
            if v[1] in ('concat',) or self.known_type(st, v) == 'str':
                return v
            c = st.facts.const(v)
            if c is not None:
                return self.tostr(st, c)
            return T('strm', v)
        if v[0] == 'r' and isinstance(st.obj(v), InstO):
            return T('str', T('logobj', st.obj(v).cls))
        if v[0] in ('r', 'tup'):
            try:
                return K(str(self.to_python(st, v)))
            except ValueError:
                pass
        return T('str', self.freeze(st, v))

    def to_python(self, st, v):
        """a value that is known in full; ValueError otherwise"""
        if v[0] == 'k' and v[1] in ('str', 'int', 'bool', 'NoneType', 'float', 'bytes'):
            return v[2]
        if v[0] == 't':
            c = st.facts.const(v)
            if c is not None and c != v:
                return self.to_python(st, c)
            if v[1:3] == ('m', 'encode') and v[3][0] == 'k' and v[3][1] == 'str':
                return v[3][2].encode()
        if v[0] == 'tup':
            return tuple(self.to_python(st, x) for x in v[1])
        o = st.obj(v) if v[0] == 'r' else None
        if isinstance(o, ListO) and not isinstance(o, SetO) and o.kind == 'list':
            return [self.to_python(st, x) for x in o.items]
        if isinstance(o, DictO) and o.simple():
            return {self.to_python(st, k): self.to_python(st, e) for k, e in o.items()}
        raise ValueError

    def percent(self, st, fmt, r):
        import re
        args = list(r[1]) if r[0] == 'tup' else [r]
        parts = []
        pos = 0
        for m in re.finditer(r'%(\((\w+)\))?([#0\- +]*)(\d*)(\.\d+)?([a-zA-Z%])', fmt):
            parts.append(K(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(6) == '%':
                parts.append(K('%'))
                continue
            if m.group(2):
                d = self.as_dict(st, r)
                a = self.dict_get(st, d, K(m.group(2))) if d is not None else MISS
                if a is MISS:
                    self.raise_(st, 'KeyError')
            else:
                if not args:
                    self.raise_(st, 'TypeError', K('not enough arguments for format string'))
                a = args.pop(0)
            if m.group(6) == 's' and not m.group(3) and not m.group(4) and not m.group(5):
                parts.append(self.tostr(st, a))
            else:
                a = self.freeze(st, a)
                if a[0] == 'k' and a[1] in ('int', 'str', 'float'):
                    try:
                        parts.append(K(m.group(0) % a[2]))
                        continue
                    except TypeError:
                        self.raise_(st, 'TypeError')
                parts.append(T('fmt', m.group(0), a))
        parts.append(K(fmt[pos:]))
        if args and not (r[0] != 'tup' and self.as_dict_safe(st, r) is not None):
            self.raise_(st, 'TypeError', K('not all arguments converted'))
        return self.concat(st, parts)

    def as_dict_safe(self, st, v):
        if v[0] == 'r' and isinstance(st.obj(v), (DictO, InstO)):
            return True
        return None

    def strformat(self, st, fmt, args, kw):
        import string
        parts = []
        auto = 0
        try:
            items = list(string.Formatter().parse(fmt))
        except ValueError:
            self.raise_(st, 'ValueError')
        for lit, field, spec, conv in items:
            parts.append(K(lit))
            if field is None:
                continue
            base = field
            rest = ''
            for i, ch in enumerate(field):
                if ch in '.[':
                    base, rest = field[:i], field[i:]
                    break
            if base == '':
                base = str(auto)
                auto += 1
            if base.isdigit():
                if int(base) >= len(args):
                    self.raise_(st, 'IndexError')
                a = args[int(base)]
            else:
                if base not in kw:
                    self.raise_(st, 'KeyError', K(base))
                a = kw[base]
            if rest.startswith('.'):
                a = self.getattr(st, a, rest[1:])
            elif rest:
                a = T('fmtfield', self.freeze(st, a), rest)
            if spec or (conv and conv != 's'):
                a = self.freeze(st, a)
                if a[0] == 'k' and not conv:
                    parts.append(K(format(a[2], spec)))
                else:
                    parts.append(T('fmt', spec, conv, a))
            else:
                parts.append(self.tostr(st, a))
        return self.concat(st, parts)

    def e_JoinedStr(self, n, st, ctx):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.ev(v.value, st, ctx)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    sp = self.ev(v.format_spec, st, ctx) if v.format_spec is not None else EMPTYS
                    x = self.freeze(st, x)
                    if x[0] == 'k' and sp[0] == 'k' and v.conversion == -1:
                        parts.append(K(format(x[2], sp[2])))
                    else:
                        parts.append(T('fmt', sp, v.conversion, x))
                else:
                    parts.append(self.tostr(st, x))
        return self.concat(st, parts)

    def e_FormattedValue(self, n, st, ctx):
        return self.tostr(st, self.ev(n.value, st, ctx))

    def e_Lambda(self, n, st, ctx):
        return self.mk_fn(n, st, ctx)

    def mk_fn(self, n, st, ctx):
        key = id(n)
        info = self.funcs.get(key)
        if info is None:
            q = (ctx.qual + '.' if ctx.qual else '') + getattr(n, 'name', '<lambda>')
            info = FuncInfo(n, ctx.mod, q, ctx.cls if ctx.info is None else (ctx.cls), None)
            self.funcs[key] = info
        a = n.args
        defaults = tuple(self.ev(d, st, ctx) for d in a.defaults)
        kwd = tuple((x.arg, self.ev(d, st, ctx)) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        if ctx.info is not None:
            encl = (ctx.fid,) + ctx.encl
        else:
            encl = ctx.encl
        return ('fn', key, encl, defaults, kwd)

    # comprehensions are run as loops in their own scope
    def e_ListComp(self, n, st, ctx):
        return self.comp(n, st, ctx, 'list')

    def e_SetComp(self, n, st, ctx):
        return self.comp(n, st, ctx, 'set')

    def e_GeneratorExp(self, n, st, ctx):
        return self.comp(n, st, ctx, 'generator')

    def e_DictComp(self, n, st, ctx):
        return self.comp(n, st, ctx, 'dict')

    _comp_cache = {}

    def comp_body(self, n, kind):
        c = self._comp_cache.get(id(n))
        if c is not None:
            return c[1]
        L = lambda x: ast.copy_location(x, n)
        if kind == 'dict':
            inner = L(ast.Assign(targets=[L(ast.Subscript(value=L(ast.Name('$acc', ast.Load())), slice=n.key, ctx=ast.Store()))], value=n.value))
        elif kind == 'set':
            inner = L(ast.Expr(L(ast.Call(func=L(ast.Attribute(L(ast.Name('$acc', ast.Load())), 'add', ast.Load())), args=[n.elt], keywords=[]))))
        else:
            inner = L(ast.Expr(L(ast.Call(func=L(ast.Attribute(L(ast.Name('$acc', ast.Load())), 'append', ast.Load())), args=[n.elt], keywords=[]))))
        body = [inner]
        for g in reversed(n.generators):
            for i in reversed(g.ifs):
                body = [L(ast.If(test=i, body=body, orelse=[]))]
            body = [L(ast.For(target=g.target, iter=g.iter, body=body, orelse=[]))]
        first = body[0]
        it = first.iter
        first.iter = L(ast.Name('$it', ast.Load()))
        ast.fix_missing_locations(first)
        self._comp_cache[id(n)] = (n, (first, it))
        return first, it

    def comp(self, n, st, ctx, kind):
        first, it = self.comp_body(n, kind)
        src = self.ev(it, st, ctx)
        acc = st.new(DictO() if kind == 'dict' else SetO(()) if kind == 'set' else ListO((), kind))
        info = self.funcs.get(('comp', id(n)))
        if info is None:
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('$it'), ast.arg('$acc')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=ast.Constant(0))
            info = FuncInfo(lam, ctx.mod, ctx.qual + '.<comp>', ctx.cls, None)
            info.node = n
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        info.locals.add(x.id)
            info.has_nested = any(isinstance(x, (ast.Lambda,)) for x in ast.walk(n))
            self.funcs[('comp', id(n))] = info
        walrus = [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
        if walrus:
            raise Undecided('assignment expression in comprehension')

        def thunk(s0):
            s = s0.copy()
            base = s0.nid
            fid = s.nid
            s.nid += 1
            s.frames[fid] = {'$it': src, '$acc': acc}
            c2 = Ctx(fid, ctx.mod, info, ((ctx.fid,) if True else ()) + ctx.encl, ctx.cls, ctx.qual)
            outs = self.exec_block([first], s, c2, frozenset(['$acc']), None)
            res = []
            for a, comp_ in outs:
                a.frames.pop(fid, None)
                if comp_[0] == 'exc':
                    res.append((a, 'exc', comp_[1]))
                else:
                    res.append((a, 'val', acc))
            return self.merge_returns(res, base)
        return self.memo(st, thunk)

    def e_Await(self, n, st, ctx):
        raise Undecided('await')

    def e_Yield(self, n, st, ctx):
        v = self.ev(n.value, st, ctx) if n.value is not None else NONE
        acc = self.lookup(st, ctx, '$yield') if False else st.getl(ctx.fid, '$yield')
        o = st.obj(acc)
        st.setobj(acc, ListO(o.items + (v,), o.kind))
        return NONE

    def e_YieldFrom(self, n, st, ctx):
        v = self.ev(n.value, st, ctx)
        acc = st.getl(ctx.fid, '$yield')
        o = st.obj(acc)
        st.setobj(acc, ListO(o.items + tuple(self.iterate(st, v)), o.kind))
        return NONE

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, ctx):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id == 'super' and 'super' not in (ctx.info.locals if ctx.info else ()):
            return self.ev_super(n, st, ctx)
        if isinstance(fn, ast.Name) and fn.id in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) \
                and self.lookup(st, ctx, fn.id) == ('bi', fn.id):
            return self.quantifier(n.args[0], fn.id, st, ctx)
        if isinstance(fn, ast.Name) and fn.id in ('locals', 'eval', 'exec'):
            raise Undecided('call of ' + fn.id)
        if isinstance(fn, ast.Name) and fn.id == 'next' and n.args and isinstance(n.args[0], ast.GeneratorExp) and self.lookup(st, ctx, 'next') == ('bi', 'next'):
            return self.first_of(n, st, ctx)
        f = self.ev(fn, st, ctx)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                its = self.iterate(st, self.ev(a.value, st, ctx))
                if any(i[0] in ('gen', 'maybe') for i in its):
                    args.append(('stargen', its))
                else:
                    args.extend(its)
            else:
                args.append(self.ev(a, st, ctx))
        kwargs = {}
        star = None
        for kw in n.keywords:
            if kw.arg is None:
                v = self.ev(kw.value, st, ctx)
                d = self.as_dict(st, v)
                if d is None:
                    self.raise_(st, 'TypeError', K('argument after ** must be a mapping'))
                star = d if star is None else self.dict_update(star, d, st)
            else:
                kwargs[kw.arg] = self.ev(kw.value, st, ctx)
        if star is not None and star.base is None and not star.layers and all(e[0] != 'ite' and k[0] == 'k' for k, e in star.conc.items()):
            for k, e in star.conc.items():
                if e not in (DEL, MISS):
                    if k[2] in kwargs:
                        self.raise_(st, 'TypeError', K('multiple values'))
                    kwargs[k[2]] = e
            star = None
        self.node = n
        return self.call(st, f, args, kwargs, n, star)

    def ev_super(self, n, st, ctx):
        if len(n.args) == 2:
            c = self.ev(n.args[0], st, ctx)
            s = self.ev(n.args[1], st, ctx)
            if c[0] != 'cls':
                raise Undecided('super of unknown class')
            if s[0] == 'r' and isinstance(st.obj(s), InstO) and c not in self.classes[st.obj(s).cls].mro:
                self.raise_(st, 'TypeError', K('super(type, obj): obj must be an instance'))
            return ('super', c[1], s)
        info = ctx.info
        c = ctx
        if info is None or not info.pos or ctx.cls is None:
            raise Undecided('super() outside a method')
        s = self.lookup(st, ctx, info.pos[0])
        return ('super', ctx.cls, s)

    _quant = {}

    def quantifier(self, g, which, st, ctx):
        """any/all of a generator expression, run as a loop with early exit"""
        q = self._quant.get((id(g), which))
        if q is None:
            L = lambda x: ast.copy_location(x, g)
            test = g.elt if which == 'any' else L(ast.UnaryOp(ast.Not(), g.elt))
            body = [L(ast.If(test=test, body=[L(ast.Return(L(ast.Constant(which == 'any'))))], orelse=[]))]
            for gen in reversed(g.generators):
                for i in reversed(gen.ifs):
                    body = [L(ast.If(test=i, body=body, orelse=[]))]
                body = [L(ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[]))]
            first = body[0]
            it = first.iter
            first.iter = L(ast.Name('$it', ast.Load()))
            stmts = [first, L(ast.Return(L(ast.Constant(which != 'any'))))]
            for s in stmts:
                ast.fix_missing_locations(s)
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('$it')], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Constant(0))
            info = FuncInfo(lam, ctx.mod, ctx.qual + '.<%s>' % which, ctx.cls, None)
            for gen in g.generators:
                for x in ast.walk(gen.target):
                    if isinstance(x, ast.Name):
                        info.locals.add(x.id)
            q = (g, stmts, it, info)
            self._quant[(id(g), which)] = q
        _, stmts, it, info = q
        src = self.ev(it, st, ctx)
        return self.run_inline(st, ctx, info, stmts, src)

    def run_inline(self, st, ctx, info, stmts, src):
        def thunk(s0):
            s = s0.copy()
            base = s0.nid
            fid = s.nid
            s.nid += 1
            s.frames[fid] = {'$it': src}
            c2 = Ctx(fid, ctx.mod, info, (ctx.fid,) + ctx.encl, ctx.cls, ctx.qual)
            outs = self.exec_block(stmts, s, c2, frozenset(), None)
            res = []
            for a, comp_ in outs:
                a.frames.pop(fid, None)
                if comp_[0] == 'exc':
                    res.append((a, 'exc', comp_[1]))
                else:
                    res.append((a, 'val', comp_[1]))
            return self.merge_returns(res, base)
        return self.memo(st, thunk)

    def first_of(self, n, st, ctx):
        """next(genexp[, default])"""
        g = n.args[0]
        q = self._quant.get((id(g), 'next'))
        if q is None:
            L = lambda x: ast.copy_location(x, g)
            body = [L(ast.Return(g.elt))]
            for gen in reversed(g.generators):
                for i in reversed(gen.ifs):
                    body = [L(ast.If(test=i, body=body, orelse=[]))]
                body = [L(ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[]))]
            first = body[0]
            it = first.iter
            first.iter = L(ast.Name('$it', ast.Load()))
            if len(n.args) > 1:
                tail = L(ast.Return(n.args[1]))
            else:
                tail = L(ast.Raise(exc=L(ast.Name('StopIteration', ast.Load())), cause=None))
            stmts = [first, tail]
            for s in stmts:
                ast.fix_missing_locations(s)
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('$it')], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Constant(0))
            info = FuncInfo(lam, ctx.mod, ctx.qual + '.<next>', ctx.cls, None)
            for gen in g.generators:
                for x in ast.walk(gen.target):
                    if isinstance(x, ast.Name):
                        info.locals.add(x.id)
            q = (g, stmts, it, info)
            self._quant[(id(g), 'next')] = q
        _, stmts, it, info = q
        src = self.ev(it, st, ctx)
        return self.run_inline(st, ctx, info, stmts, src)

    # ------------------------------------------------------------ subscripts
    def getitem(self, st, v, i):
        k = v[0]
        if k == 'r':
            o = st.obj(v)
            if isinstance(o, DictO):
                r = self.dict_get(st, o, self.key(st, i))
                if r is MISS:
                    self.raise_(st, 'KeyError', self.freeze(st, i))
                return r
            if isinstance(o, SetO):
                self.raise_(st, 'TypeError', K('not subscriptable'))
            if isinstance(o, ListO):
                return self.list_index(st, o.items, i)
            if isinstance(o, InstO):
                m = self.find_attr(st, o.cls, '__getitem__')
                if m is not None and m[0] == 'fn':
                    return self.call(st, ('bm', m, v), [i], {})
                if '$dict' in o.attrs:
                    return self.getitem(st, o.attrs['$dict'], i)
                self.raise_(st, 'TypeError', K('not subscriptable'))
        if v == ('ext', 'sys.modules') and i[0] == 'k' and i[2] in self.modules:
            return ('mod', i[2])
        if k == 'tup':
            return self.list_index(st, v[1], i)
        if k == 'k':
            if v[1] in ('str', 'bytes') and i[0] == 'k' and i[1] in ('int', 'bool'):
                try:
                    return K(v[2][i[2]])
                except IndexError:
                    self.raise_(st, 'IndexError')
            if v[1] in ('list', 'tuple'):
                return self.list_index(st, v[2], i)
            if v[1] == 'dict':
                self.raise_(st, 'KeyError', i)
            if v[1] == 'str':
                return T('idx', v, self.freeze(st, i))
            self.raise_(st, 'TypeError', K('not subscriptable'))
        if k == 't':
            if v[1] == 'dct':
                return self.getitem(st, st.new(v[2]), i)
            if v[1] == 'lst':
                return self.list_index(st, v[3], i)
            c = st.facts.const(v)
            if c is not None and c[1] in ('NoneType', 'int', 'bool'):
                self.raise_(st, 'TypeError', K('not subscriptable'))
            fi = self.freeze(st, i)
            if fi[0] == 'k' and fi[1] in ('int',) or self.known_type(st, fi) == 'int':
                ty = st.facts.types(v)
                if not (ty and ty <= {'dict', 'Message'}):
                    if v[1] == 'pair':
                        return T('nth', v, fi)
                    if v[1] == 'm' and v[2] == 'split' or ty and ty & {'list', 'str'}:
                        if fi in (K(0), K(-1)):
                            if v[1] == 'm' and v[2] == 'split':
                                return T('idx', v, fi)
                        if not self.truth(st, v):
                            self.raise_(st, 'IndexError')
                        if v[1] == 'concat' and fi in (K(0), K(-1)):
                            parts = v[2] if fi == K(0) else v[2][::-1]
                            for p in parts:
                                if self.truth(st, p):
                                    if p[0] == 'k':
                                        return K(p[2][fi[2]])
                                    if self.known_type(st, p) == 'str':
                                        return T('idx', p, fi)
                                    break
                    t = T('idx', v, fi)
                    return t
            if v[1] in PURE_INDEX or self.known_type(st, v) in ('str', 'list'):
                return T('idx', v, fi)
            # mapping semantics
            if self.decide(st, ('in', self.key(st, i), v)):
                return self.item_term(st, v, self.key(st, i))
            self.raise_(st, 'KeyError', fi)
        if k == 'ext' or k == 'bi':
            return T('idx', T('v', v), self.freeze(st, i))
        if k == 'cls':
            return v
        if k == 'dv':
            self.raise_(st, 'TypeError', K('not subscriptable'))
        raise Undecided('subscript of %s' % k)

    def list_index(self, st, items, i):
        if i[0] == 't':
            c = st.facts.const(i)
            if c is not None:
                i = c
        items = self.norm_items(st, items)
        simple = not any(x[0] in ('gen', 'maybe') for x in items)
        if i[0] == 'k' and i[1] in ('int', 'bool') and simple:
            try:
                return items[int(i[2])]
            except IndexError:
                self.raise_(st, 'IndexError')
        if i[0] == 'k' and i[1] == 'int':
            return self.seq_pick(st, items, i[2])
        if simple and items and all(x[0] in ('k', 't') for x in items):
            return T('idx', T('lst', 'ListO', tuple(items)), self.freeze(st, i))
        raise Undecided('index into partly known list')

    def seq_pick(self, st, items, i):
        """element at constant index of a list with unknown segments"""
        rev = i < 0
        seq = list(reversed(items)) if rev else list(items)
        n = -i - 1 if rev else i
        while seq:
            x = seq.pop(0)
            if x[0] == 'gen':
                if self.gen_nonempty(st, x):
                    if n == 0 or True:
                        w = self.some_of(st, x, ('pos', i))
                        return w
                continue
            if x[0] == 'maybe':
                if self.decide_lit(st, x[1], x[2]):
                    x = x[3]
                else:
                    continue
            if n == 0:
                return x
            n -= 1
        self.raise_(st, 'IndexError')

    def some_of(self, st, g, tag):
        """an (unknown) element of a generated segment"""
        _, e, src, conds, elt = g
        w = self.phi('elem')
        self.assume_member(st, src, w)
        for a, v in conds:
            self.assume(st, subst_atom(a, e, w), v)
        return self.resolve(st, subst(elt, e, w))

    def resolve(self, st, v):
        """replace dval(src, key) by the looked-up value"""
        if v[0] == 't' and v[1] == 'dval':
            r = self.dict_get(st, v[2], v[3])
            if r is MISS:
                raise Infeasible()
            return r
        if v[0] == 'tup':
            return ('tup', tuple(self.resolve(st, x) for x in v[1]))
        return v

    def slice(self, st, v, lo, hi, step):
        cs = all(x[0] == 'k' for x in (lo, hi, step))
        if cs:
            s = slice(lo[2], hi[2], step[2])
            if v[0] == 'k' and v[1] in ('str', 'bytes'):
                return K(v[2][s])
            if v[0] == 'k' and v[1] in ('list', 'tuple'):
                return ('k', v[1], v[2][s])
            if v[0] == 'tup':
                return ('tup', v[1][s])
            if v[0] == 'r' and isinstance(st.obj(v), ListO):
                o = st.obj(v)
                if not any(x[0] in ('gen', 'maybe') for x in o.items):
                    return st.new(ListO(o.items[s]))
                if s == slice(None, None, None):
                    return st.new(ListO(o.items))
        fz = tuple(self.freeze(st, x) for x in (lo, hi, step))
        fv = self.freeze(st, v)
        if fv[0] == 't' and fv[1] == 'concat' and fz[2] == NONE:
            r = self.slice_concat(st, fv, fz[0], fz[1])
            if r is not None:
                return r
        if fz[0] in (K(0), NONE) and fz[1] == NONE and fz[2] in (NONE, K(1)) and self.known_type(st, fv) == 'str':
            return fv
        return T('slice', fv, *fz)

    def slice_concat(self, st, v, lo, hi):
        """strip a known prefix of a concatenation"""
        parts = list(v[2])
        if hi == NONE and parts:
            n = self.strlen(st, parts[0])
            if n is not None and lo == n:
                return self.concat(st, parts[1:])
            if lo[0] == 'k' and lo[1] == 'int' and parts[0][0] == 'k' and 0 <= lo[2] <= len(parts[0][2]):
                return self.concat(st, [K(parts[0][2][lo[2]:])] + parts[1:])
        return None

    def strlen(self, st, v):
        if v[0] == 'k':
            return K(len(v[2]))
        return T('len', v)


PURE_INDEX = {'fnres', 'call', 'm', 'attr', 'nth', 'idx', 'slice', 'pair', 'split'}


def lin_value(l):
    d, c = l
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return lin_build(l)


def lin_build(l):
    """left-nested canonical sum"""
    d, c = l
    r = None
    for t, k in sorted(d.items(), key=lambda x: tid(x[0])):
        x = t if k == 1 else T('mul', t, K(k))
        r = x if r is None else T('add', r, x)
    if c:
        r = T('add', r, K(c))
    return r
