"""Statement execution: sets of abstract states, joined at control-flow joins; loop summaries."""
import ast
import os
import sys
from .expr import *

NEXT = ('next',)
BRK = ('brk',)
CONT = ('cont',)


TRACE = int(os.environ.get("SA_TRACE") or 0)


class Stmts(Expr):
    MAXSTATES = 3000
    keep = frozenset()

    def exec_block(self, stmts, st, ctx, live, loop):
        """list of (state, completion)"""
        done = []
        cur = [st]
        base = st.nid
        for i, s in enumerate(stmts):
            lv = None
            if live is not None:
                lv = live_before(stmts[i + 1:], live, loop or frozenset())
                if ctx.info is not None and ctx.info.is_gen:
                    lv = lv | {'$yield'}
                if self.keep:
                    lv = lv | self.keep
            nxt = []
            for c in cur:
                for o in self.exec_stmt(s, c, ctx, lv, loop):
                    if o[1] == NEXT:
                        nxt.append(o)
                    else:
                        done.append(o)
            if (len(nxt) > 1 or lv is not None) and ctx.mod[:5] != 'spec_':
                nxt = self.merge(nxt, ctx.fid, lv, base)
            cur = [o[0] for o in nxt]
            if TRACE and len(cur) + len(done) > TRACE:
                print('  ' * len(self.stack), ctx.qual, s.lineno, type(s).__name__, len(cur), len(done), file=sys.stderr)
            if len(cur) + len(done) > self.MAXSTATES:
                raise Budget('too many states at %s:%s' % (ctx.qual, s.lineno))
            if not cur:
                break
        if len(done) > 1 and ctx.mod[:5] != 'spec_':
            done = self.merge(done, ctx.fid, live, base)
        return done + [(c, NEXT) for c in cur]

    def exec_stmt(self, s, st, ctx, live, loop):
        self.node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement ' + type(s).__name__)
        return m(s, st, ctx, live, loop)

    def simple(self, st, fn):
        return [(s, NEXT if k == 'val' else ('exc', v)) for s, k, v in self.explore(st, fn)]

    # ------------------------------------------------------------ simple statements
    def s_Expr(self, s, st, ctx, live, loop):
        if isinstance(s.value, ast.Constant):
            return [(st, NEXT)]
        return self.simple(st, lambda z: self.ev(s.value, z, ctx))

    def s_Pass(self, s, st, ctx, live, loop):
        return [(st, NEXT)]

    s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, s, st, ctx, live, loop):
        def f(z):
            v = self.ev(s.value, z, ctx)
            for t in s.targets:
                self.assign(z, ctx, t, v)
        return self.simple(st, f)

    def s_AnnAssign(self, s, st, ctx, live, loop):
        if s.value is None:
            return [(st, NEXT)]
        return self.simple(st, lambda z: self.assign(z, ctx, s.target, self.ev(s.value, z, ctx)))

    def s_AugAssign(self, s, st, ctx, live, loop):
        def f(z):
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.lookup(z, ctx, t.id)
                v = self.ev(s.value, z, ctx)
                self.assign(z, ctx, t, self.inplace(z, type(s.op), cur, v))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, z, ctx)
                cur = self.getattr(z, o, t.attr)
                v = self.ev(s.value, z, ctx)
                self.setattr(z, o, t.attr, self.inplace(z, type(s.op), cur, v))
            else:
                o = self.ev(t.value, z, ctx)
                i = self.ev(t.slice, z, ctx)
                cur = self.getitem(z, o, i)
                v = self.ev(s.value, z, ctx)
                self.setitem(z, o, i, self.inplace(z, type(s.op), cur, v))
        return self.simple(st, f)

    def inplace(self, st, op, cur, v):
        if op is ast.Add and cur[0] == 'r' and isinstance(st.obj(cur), ListO):
            self.call_builtin(st, 'ListO.extend', [cur, v], {}, self.node)
            return cur
        if op is ast.BitOr and cur[0] == 'r':
            o = st.obj(cur)
            if isinstance(o, DictO):
                self.call_builtin(st, 'DictO.update', [cur, v], {}, self.node)
                return cur
            if isinstance(o, SetO):
                self.call_builtin(st, 'SetO.update', [cur, v], {}, self.node)
                return cur
        return self.binop(st, op, cur, v)

    def s_Return(self, s, st, ctx, live, loop):
        st.trace = (ctx.mod, s.lineno, ctx.qual)
        if s.value is None:
            return [(st, ('ret', NONE))]
        return [(z, ('ret', v) if k == 'val' else ('exc', v)) for z, k, v in self.explore(st, lambda z: self.ev(s.value, z, ctx))]

    def s_Break(self, s, st, ctx, live, loop):
        return [(st, BRK)]

    def s_Continue(self, s, st, ctx, live, loop):
        return [(st, CONT)]

    def s_Delete(self, s, st, ctx, live, loop):
        def f(z):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.lookup(z, ctx, t.id)
                    z.dell(ctx.fid, t.id)
                elif isinstance(t, ast.Attribute):
                    self.delattr(z, self.ev(t.value, z, ctx), t.attr)
                elif isinstance(t, ast.Subscript):
                    o = self.ev(t.value, z, ctx)
                    if isinstance(t.slice, ast.Slice):
                        if t.slice.lower is None and t.slice.upper is None and o[0] == 'r':
                            x = z.obj(o)
                            if isinstance(x, ListO):
                                z.setobj(o, type(x)((), x.kind))
                                continue
                        raise Undecided('slice deletion')
                    self.delitem(z, o, self.ev(t.slice, z, ctx))
                else:
                    raise Undecided('del target')
        return self.simple(st, f)

    def s_Assert(self, s, st, ctx, live, loop):
        def f(z):
            if not self.truth(z, self.ev(s.test, z, ctx)):
                self.raise_(z, 'AssertionError')
        return self.simple(st, f)

    def s_Raise(self, s, st, ctx, live, loop):
        def f(z):
            if s.exc is None:
                e = z.getl(ctx.fid, '$exc')
                if e is None:
                    self.raise_(z, 'RuntimeError')
                raise PyExc(e)
            v = self.ev(s.exc, z, ctx)
            self.node = s
            if v[0] in ('cls', 'bi', 'ext'):
                v = self.call(z, v, [], {})
            if v[0] == 't':
                v = ('exc', ('any', v), (), self.where())
            if v[0] != 'exc':
                self.raise_(z, 'TypeError')
            raise PyExc(v[:3] + (self.where(),))
        return self.simple(st, f)

    def s_Import(self, s, st, ctx, live, loop):
        def f(z):
            for a in s.names:
                v = self.import_module(z, a.name)
                if a.asname:
                    self.assign_name(z, ctx, a.asname, v)
                else:
                    top = a.name.split('.')[0]
                    self.assign_name(z, ctx, top, self.import_module(z, top))
        return self.simple(st, f)

    def s_ImportFrom(self, s, st, ctx, live, loop):
        def f(z):
            mod = s.module or ''
            if s.level:
                pk = ctx.mod.split('.')
                if not self.is_package(ctx.mod):
                    pk = pk[:-1]
                pk = pk[:len(pk) - (s.level - 1)]
                mod = '.'.join(pk + ([mod] if mod else []))
            if mod == '__future__':
                return
            m = self.import_module(z, mod)
            for a in s.names:
                if a.name == '*':
                    if m[0] != 'mod':
                        raise Undecided('star import from ' + mod)
                    for n, v in z.frame('mod:' + m[1]).items():
                        if not n.startswith('_'):
                            self.assign_name(z, ctx, n, v)
                    continue
                if m[0] == 'mod':
                    v = z.frame('mod:' + mod).get(a.name)
                    if v is None:
                        if self.module_exists(mod + '.' + a.name):
                            v = self.import_module(z, mod + '.' + a.name)
                        else:
                            self.raise_(z, 'ImportError', K(a.name))
                else:
                    v = self.ext_attr(z, m, a.name)
                self.assign_name(z, ctx, a.asname or a.name, v)
        return self.simple(st, f)

    def s_FunctionDef(self, s, st, ctx, live, loop):
        def f(z):
            v = self.mk_fn(s, z, ctx)
            for d in reversed(s.decorator_list):
                v = self.decorate(z, self.ev(d, z, ctx), v)
            self.assign_name(z, ctx, s.name, v)
        return self.simple(st, f)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, st, d, v):
        if d == ('bi', 'staticmethod'):
            return ('static', v)
        if d == ('bi', 'classmethod'):
            return ('clsm', v)
        if d == ('bi', 'property'):
            return ('prop', v, None)
        if d[0] == 'propset':
            return ('prop', d[1][1], v)
        if d[0] == 'ext':
            return v
        return self.call(st, d, [v], {})

    def s_ClassDef(self, s, st, ctx, live, loop):
        def f(z):
            bases = [self.ev(b, z, ctx) for b in s.bases]
            v = self.mk_class(z, ctx, s, [b for b in bases if b != ('bi', 'object')], {})
            self.assign_name(z, ctx, s.name, v)
        return self.simple(st, f)

    # ------------------------------------------------------------ assignment
    def assign_name(self, st, ctx, name, v):
        if ctx.info is not None:
            if name in ctx.info.globals:
                st.setl('mod:' + ctx.mod, name, v)
                self.world_write(st, ('global', ctx.mod, name))
                return
            if name in ctx.info.nonlocals:
                for f in ctx.encl:
                    if st.getl(f, name) is not None:
                        st.setl(f, name, v)
                        return
        st.setl(ctx.fid, name, v)

    def assign(self, st, ctx, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(st, ctx, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, ctx)
            self.node = t
            self.setattr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, ctx)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None and o[0] == 'r' and isinstance(st.obj(o), ListO):
                    st.setobj(o, ListO(self.iterate(st, v), st.obj(o).kind))
                    return
                raise Undecided('slice assignment')
            i = self.ev(t.slice, st, ctx)
            self.node = t
            self.setitem(st, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                its = list(self.iterate(st, v))
                if any(x[0] in ('gen', 'maybe') for x in its):
                    raise Undecided('starred unpacking of unknown')
                k = star[0]
                m = len(t.elts) - k - 1
                if len(its) < len(t.elts) - 1:
                    self.raise_(st, 'ValueError', K('unpack'))
                for x, y in zip(t.elts[:k], its[:k]):
                    self.assign(st, ctx, x, y)
                self.assign(st, ctx, t.elts[k].value, st.new(ListO(its[k:len(its) - m])))
                for x, y in zip(t.elts[k + 1:], its[len(its) - m:]):
                    self.assign(st, ctx, x, y)
                return
            for x, y in zip(t.elts, self.unpack(st, v, len(t.elts))):
                self.assign(st, ctx, x, y)
        else:
            raise Undecided('assignment target')

    def unpack(self, st, v, n):
        v = self.resolve(st, v)
        if v[0] == 't' and v[1] not in ('lst', 'dct', 'listof'):
            c = st.facts.const(v)
            if c is not None:
                v = c
        if v[0] == 't' and v[1] not in ('lst', 'dct', 'listof'):
            ty = st.facts.types(v)
            if ty and ty <= {'int', 'bool', 'NoneType', 'float'}:
                self.raise_(st, 'TypeError', K('cannot unpack'))
            if v[1] in ('item', 'elem', 'idx', 'm') :
                if not self.decide(st, mk_one(T('len', v), [K(n)])):
                    self.raise_(st, 'ValueError', K('unpack'))
            return [T('idx', v, K(i)) for i in range(n)]
        its = list(self.iterate(st, v))
        if not any(x[0] in ('gen', 'maybe') for x in its):
            if len(its) != n:
                self.raise_(st, 'ValueError', K('unpack'))
            return its
        if v[0] == 'dv' or v[0] == 'r' and isinstance(st.obj(v), DictO):
            # elements as by index into the list of it
            if not self.equal(st, self.b_len(st, [v], {}), K(n)):
                self.raise_(st, 'ValueError', K('unpack'))
            return [self.list_index(st, its, K(i)) for i in range(n)]
        fz = self.freeze(st, v)
        if not self.decide(st, mk_one(T('len', fz), [K(n)])):
            self.raise_(st, 'ValueError', K('unpack'))
        return [T('idx', fz, K(i)) for i in range(n)]

    def setitem(self, st, v, i, x):
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, DictO):
                st.setobj(v, self.dput(st, o, self.key(st, i), x))
                return
            if isinstance(o, SetO):
                self.raise_(st, 'TypeError')
            if isinstance(o, ListO):
                if i[0] == 'k' and not any(y[0] in ('gen', 'maybe') for y in o.items):
                    its = list(o.items)
                    try:
                        its[i[2]] = x
                    except IndexError:
                        self.raise_(st, 'IndexError')
                    st.setobj(v, ListO(its, o.kind))
                    return
                raise Undecided('list item assignment')
            if isinstance(o, InstO):
                m = self.find_attr(st, o.cls, '__setitem__')
                if m is not None and m[0] == 'fn':
                    self.call(st, ('bm', m, v), [i, x], {})
                    return
                if '$dict' in o.attrs:
                    self.setitem(st, o.attrs['$dict'], i, x)
                    return
        if v[0] in ('t', 'ext'):
            h = self.hooks.get('setitem')
            if h:
                h(self, st, v, i, x)
            return
        self.raise_(st, 'TypeError', K('item assignment'))

    def delitem(self, st, v, i):
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, DictO):
                k = self.key(st, i)
                if self.dict_get(st, o, k) is MISS:
                    # same content, same description as after a deletion
                    if (o.base is not None or o.layers) and k[0] == 'k' and v[1] >= State.world_nid:
                        st.setobj(v, st.obj(v).put(k, DEL))
                    self.raise_(st, 'KeyError', self.freeze(st, i))
                # the stored entry may sit under another spelling of the same key
                for k2 in o.conc:
                    if k2 != k and 't' in (k2[0], k[0]) and k2[0] in ('k', 't') and st.facts.decide(mk_eq(k2, k)) is True:
                        k = k2
                st.setobj(v, self.dput(st, o, k, DEL))
                return
            if isinstance(o, InstO):
                m = self.find_attr(st, o.cls, '__delitem__')
                if m is not None and m[0] == 'fn':
                    self.call(st, ('bm', m, v), [i], {})
                    return
                if '$dict' in o.attrs:
                    self.delitem(st, o.attrs['$dict'], i)
                    return
            if isinstance(o, ListO) and not isinstance(o, SetO) and i[0] == 'k' and not any(y[0] in ('gen', 'maybe') for y in o.items):
                its = list(o.items)
                try:
                    del its[i[2]]
                except IndexError:
                    self.raise_(st, 'IndexError')
                st.setobj(v, ListO(its, o.kind))
                return
        if v[0] in ('t', 'ext'):
            h = self.hooks.get('delitem')
            if h:
                h(self, st, v, i)
            return
        self.raise_(st, 'TypeError', K('item deletion'))

    def delattr(self, st, v, name):
        if v[0] == 'r':
            o = st.obj(v)
            if isinstance(o, InstO):
                if name not in o.attrs:
                    self.raise_(st, 'AttributeError', K(name))
                a = dict(o.attrs)
                del a[name]
                st.setobj(v, InstO(o.cls, a))
                return
        if v[0] in ('t', 'cls', 'mod'):
            return
        self.raise_(st, 'AttributeError', K(name))

    # ------------------------------------------------------------ compound statements
    def s_If(self, s, st, ctx, live, loop):
        res = []
        for z, k, v in self.explore(st, lambda z: self.truth(z, self.ev(s.test, z, ctx))):
            if k == 'exc':
                res.append((z, ('exc', v)))
            else:
                res.extend(self.exec_block(s.body if v else s.orelse, z, ctx, live, loop))
        return res

    def s_Match(self, s, st, ctx, live, loop):
        raise Undecided('match statement')

    def s_Try(self, s, st, ctx, live, loop):
        fin = s.finalbody
        if live is not None:
            lf = live_before(fin, live, loop or frozenset())
            if fin:
                for_ret = lf
            hl = set(lf)
            for h in s.handlers:
                hl |= live_before(h.body, lf, loop or frozenset())
            if loop:
                hl |= loop
            els = live_before(s.orelse, lf, loop or frozenset())
            lbody = frozenset(els | hl)
        else:
            lf = lbody = None
        saved = self.keep
        if live is not None:
            self.keep = saved | frozenset(hl)
        try:
            outs = self.exec_block(s.body, st, ctx, lbody, loop)
        finally:
            self.keep = saved
        res = []
        for z, c in outs:
            if c[0] == 'exc' and s.handlers:
                res.extend(self.handle(s, z, c[1], ctx, lf, loop))
            elif c == NEXT and s.orelse:
                res.extend(self.exec_block(s.orelse, z, ctx, lf, loop))
            else:
                res.append((z, c))
        if not fin:
            return res
        out = []
        for z, c in res:
            for z2, c2 in self.exec_block(fin, z, ctx, live, loop):
                out.append((z2, c if c2 == NEXT else c2))
        return out

    s_TryStar = None

    def handle(self, s, st, exc, ctx, live, loop):
        res = []
        rest = [st]
        for h in s.handlers:
            if not rest:
                break
            nrest = []
            for z0 in rest:
                def match(z):
                    if h.type is None:
                        return True
                    return self.exc_match(z, exc, self.ev(h.type, z, ctx))
                for z, k, v in self.explore(z0, match):
                    if k == 'exc':
                        res.append((z, ('exc', v)))
                    elif v:
                        old = z.getl(ctx.fid, '$exc')
                        z.setl(ctx.fid, '$exc', exc)
                        if h.name:
                            z.setl(ctx.fid, h.name, exc)
                        for z2, c2 in self.exec_block(h.body, z, ctx, live, loop):
                            if old is None:
                                z2.dell(ctx.fid, '$exc')
                            else:
                                z2.setl(ctx.fid, '$exc', old)
                            if h.name:
                                z2.dell(ctx.fid, h.name)
                            res.append((z2, c2))
                    else:
                        nrest.append(z)
            rest = nrest
        res.extend((z, ('exc', exc)) for z in rest)
        return res

    def exc_match(self, st, exc, c):
        if c[0] == 'tup':
            return any(self.exc_match(st, exc, x) for x in c[1])
        if c[0] not in ('cls', 'bi', 'ext'):
            self.raise_(st, 'TypeError')
        r = self.is_subclass(exc[1], c)
        if r is None:
            return self.choose(2) == 0
        return r

    def s_With(self, s, st, ctx, live, loop):
        return self.with_items(s, list(s.items), st, ctx, live, loop)

    def with_items(self, s, items, st, ctx, live, loop):
        if not items:
            return self.exec_block(s.body, st, ctx, live, loop)
        it = items[0]
        res = []

        def enter(z):
            m = self.ev(it.context_expr, z, ctx)
            v = self.enter(z, m)
            if it.optional_vars is not None:
                self.assign(z, ctx, it.optional_vars, v)
            return m
        for z, k, m in self.explore(st, enter):
            if k == 'exc':
                res.append((z, ('exc', m)))
                continue
            for z2, c2 in self.with_items(s, items[1:], z, ctx, live, loop):
                for z3, k3, v3 in self.explore(z2, lambda q: self.exit_(q, m, c2)):
                    if k3 == 'exc':
                        res.append((z3, ('exc', v3)))
                    elif v3 and c2[0] == 'exc':
                        res.append((z3, NEXT))
                    else:
                        res.append((z3, c2))
        return res

    def enter(self, st, m):
        if m[0] == 'r' and isinstance(st.obj(m), InstO):
            f = self.find_attr(st, st.obj(m).cls, '__enter__')
            if f is None:
                self.raise_(st, 'AttributeError', K('__enter__'))
            return self.call(st, ('bm', f, m), [], {})
        h = self.hooks.get('enter')
        if h:
            r = h(self, st, m)
            if r is not None:
                return r
        if m[0] in ('k', 'tup', 'cls', 'fn'):
            self.raise_(st, 'AttributeError', K('__enter__'))
        return m

    def exit_(self, st, m, comp):
        if m[0] == 'r' and isinstance(st.obj(m), InstO):
            f = self.find_attr(st, st.obj(m).cls, '__exit__')
            if f is None:
                self.raise_(st, 'AttributeError', K('__exit__'))
            a = [comp[1][1], comp[1], T('tb')] if comp[0] == 'exc' else [NONE, NONE, NONE]
            return self.truth(st, self.call(st, ('bm', f, m), a, {}))
        h = self.hooks.get('exit')
        if h:
            r = h(self, st, m, comp)
            if r is not None:
                return r
        if m[0] == 't' and m[1] == 'suppress' and comp[0] == 'exc':
            return any(self.exc_match(st, comp[1], c) for c in m[2])
        return False
