"""Model of a database table behind SQLAlchemy (session, table and query objects), for the SQL store.

The table is a closed world: State.locks holds ('ROW', n, owner, data) for what the session sees and ('COM', ...) for what
is committed.  Owners may be symbolic; whether a row matches is decided (both ways where unknown)."""
from .crypto import *

COLS = ('owner', 'data')


class Sql(Crypto):
    def __init__(self, root):
        super().__init__(root)
        h = self.hooks
        one = lambda name: lambda s, st, n, a, k: T('sql', name)
        h['sqlalchemy.create_engine'] = one('engine')
        h['sqlalchemy.MetaData'] = one('metadata')
        h['sqlalchemy.Table'] = one('table')
        h['sqlalchemy.orm.sessionmaker'] = one('sessionmaker')
        for n in ('scoped_session', 'Session'):
            h['sqlalchemy.orm.' + n] = one('session')
        h['sqlalchemy.select'] = lambda s, st, n, a, k: T('query', ())
        h['sqlalchemy.insert'] = lambda s, st, n, a, k: T('stmt', 'insert', (), ())
        h['sqlalchemy.update'] = lambda s, st, n, a, k: T('stmt', 'update', (), ())
        h['sqlalchemy.delete'] = lambda s, st, n, a, k: T('stmt', 'delete', (), ())
        h['call_term'] = self.sql_call
        h['enter'] = self.sql_enter
        h['exit'] = self.sql_exit
        for c in COLS + ('rowcount', 'c', 'columns'):
            TERM_DATA_ATTRS[c] = self.sql_attr
        self.sql_events = set()

    # ------------------------------------------------------------ world
    def rows(self, st, kind='ROW'):
        return [e for e in st.locks if e[0] == kind]

    def set_rows(self, st, rows, kind='ROW'):
        st.locks = tuple(e for e in st.locks if e[0] != kind) + tuple((kind,) + e[1:] for e in rows)

    def commit(self, st):
        rows = self.rows(st)
        for f in st.flags:
            if isinstance(f, tuple) and f[0] == 'keep' and not any(self.same_row(st, e[2], f[1]) for e in rows):
                self.sp_fail(st, [K('a commit in the middle of the operation leaves no row for the key')], {})
        self.set_rows(st, rows, 'COM')

    def same_row(self, st, a, b):
        return self.equal(st, a, b)

    def column(self, v):
        if v[0] == 't' and v[1] == 'attr' and v[2][0] == 't' and v[2][1] == 'attr' and v[2][3] in ('c', 'columns') and v[2][2] == T('sql', 'table'):
            return v[3]
        return None

    def compare_term(self, st, op, l, r):
        for x, y in ((l, r), (r, l)):
            c = self.column(x)
            if c is not None and self.column(y) is None:
                if not isinstance(op, (ast.Eq, ast.NotEq)):
                    raise Undecided('comparison of a column')
                if isinstance(op, ast.NotEq):
                    return T('cond', c, self.freeze(st, y), 'not')
                return T('cond', c, self.freeze(st, y))
        return None

    def matches(self, st, row, conds):
        for c in conds:
            if c[0] != 't' or c[1] != 'cond' or c[2] not in COLS:
                raise Undecided('condition of a statement')
            held = row[2] if c[2] == 'owner' else row[3]
            if len(c) > 4 and c[4] == 'in':
                r = any(self.equal(st, held, x) for x in c[3])
            elif len(c) > 4 and c[4] != 'not':
                # a pattern or the like: the text itself and perhaps others
                r = self.equal(st, held, c[3]) or self.decide(st, ('sqlop', c[4], held, c[3]))
            else:
                r = self.equal(st, held, c[3]) is not (len(c) > 4)
            if not r:
                return False
        return True

    def apply(self, st, s):
        self.sql_events.add((self.where(), s[2] if s[1] == 'stmt' else 'query'))
        if s[1] == 'query':
            return T('rows', tuple(self.found(st, s)))
        op, conds, vals = s[2], s[3], dict(s[4])
        if any(c not in COLS for c in vals):
            raise Undecided('column')
        if op == 'insert':
            n = self.rows(st)
            k = max([e[1] for e in n] + [0]) + 1
            self.set_rows(st, n + [('ROW', k, vals.get('owner', NONE), vals.get('data', NONE))])
            return T('result', 1)
        out, n = [], 0
        for e in self.rows(st):
            if self.matches(st, e, conds):
                n += 1
                if op == 'update':
                    out.append(('ROW', e[1], vals.get('owner', e[2]), vals.get('data', e[3])))
            else:
                out.append(e)
        self.set_rows(st, out)
        return T('result', n)

    def found(self, st, q):
        self.sql_events.add((self.where(), 'query'))
        some = [c for c in q[2] if c[:2] == ('t', 'some')]
        conds = [c for c in q[2] if c[:2] != ('t', 'some')]
        r = [T('row', e[1], e[2], e[3]) for e in self.rows(st) if self.matches(st, e, conds)]
        for c in some:
            if c[2] == 'offset':
                r = r[1:]
            elif len(r) > 1 and (c[3] == K(1) or self.choose(2)):
                r = r[:1]
        for t in r:
            self.assume(st, ('truthy', t), True)
        return r

    # ------------------------------------------------------------ objects
    def sql_call(self, s, st, f, args, kwargs, node):
        if f[1] == 'sql' and f[2] in ('sessionmaker', 'session'):
            return T('sql', 'session')
        return None

    def sql_attr(self, s, st, v, name):
        if v[1] == 'row':
            return v[3] if name == 'owner' else v[4] if name == 'data' else T('attr', v, name)
        if v[1] == 'result' and name == 'rowcount':
            return K(v[2])
        return T('attr', v, name)

    def sql_enter(self, s, st, m):
        return m if m[0] == 't' and m[1] == 'sql' else None

    def sql_exit(self, s, st, m, comp):
        if m[0] == 't' and m[1] == 'sql':
            if m[2] == 'transaction':
                if comp[0] == 'exc':
                    self.set_rows(st, self.rows(st, 'COM'))
                else:
                    self.commit(st)
            return False
        return None

    def iterate0(self, st, v):
        if v[0] == 't' and v[1] == 'query':
            return tuple(self.found(st, v))
        if v[0] == 't' and v[1] == 'rows':
            return v[2]
        if v[0] == 't' and v[1] == 'row':
            return (K(v[2]), v[3], v[4])
        return super().iterate0(st, v)

    def not_iterator(self, st, v):
        return v[0] == 't' and v[1] in ('query', 'row') or super().not_iterator(st, v)

    def args_of(self, st, a, kw):
        d = {k: self.freeze(st, v) for k, v in kw.items() if k != '**'}
        for x in list(a) + ([kw['**']] if '**' in kw else []):
            o = x if isinstance(x, DictO) else st.obj(x) if x[0] == 'r' else None
            if not isinstance(o, DictO) or not o.simple():
                raise Undecided('values of a statement')
            for k, v in o.items():
                d[k[2] if k[0] == 'k' else self.column(k)] = self.freeze(st, v)
        return d

    def meth_crypto(self, s, st, v, m, a, kw):
        t = v[1]
        fz = [self.freeze(st, x) if not isinstance(x, DictO) else x for x in a]
        if t == 'sql':
            x = v[2]
            if m in ('connect', 'begin') and x in ('engine', 'connection', 'session'):
                return T('sql', 'connection' if m == 'connect' else 'transaction')
            if x == 'table' and m in ('insert', 'update', 'delete'):
                return T('stmt', m, (), ())
            if x == 'table' and m == 'select':
                return T('query', ())
            if m == 'query':
                return T('query', ())
            if m in ('execute', 'scalars') and x in ('session', 'connection', 'transaction'):
                if fz[0][0] != 't' or fz[0][1] not in ('stmt', 'query'):
                    raise Undecided('statement')
                r = self.apply(st, fz[0])
                if x == 'connection':
                    self.commit(st)
                return r
            if m == 'commit':
                self.commit(st)
                return NONE
            if m == 'rollback':
                self.set_rows(st, self.rows(st, 'COM'))
                return NONE
            if m in ('close', 'remove', 'expunge_all', 'expire_all'):
                if x in ('session', 'transaction'):
                    self.set_rows(st, self.rows(st, 'COM'))
                return NONE
            if m in ('flush',):
                return NONE
        if t == 'stmt':
            if m in ('where', 'filter'):
                return T('stmt', v[2], v[3] + tuple(fz), v[4])
            if m == 'filter_by':
                return T('stmt', v[2], v[3] + tuple(T('cond', k, x) for k, x in self.args_of(st, a, kw).items()), v[4])
            if m == 'values':
                d = dict(v[4])
                d.update(self.args_of(st, a, kw))
                return T('stmt', v[2], v[3], tuple(sorted(d.items())))
        if t == 'query':
            if m in ('filter', 'where'):
                return T('query', v[2] + tuple(fz))
            if m == 'filter_by':
                return T('query', v[2] + tuple(T('cond', k, x) for k, x in self.args_of(st, a, kw).items()))
            if m in ('order_by', 'select_from', 'with_for_update'):
                return v
            if m in ('limit', 'offset', 'distinct', 'slice'):
                return T('query', v[2] + (T('some', m, fz[0] if fz else NONE),))
            if m in ('first', 'one_or_none', 'one', 'all', 'count', 'scalar'):
                r = self.found(st, v)
                return self.pick(st, r, m)
            if m == 'delete':
                return K(self.apply(st, T('stmt', 'delete', v[2], ()))[2])
            if m == 'update':
                return K(self.apply(st, T('stmt', 'update', v[2], tuple(sorted(self.args_of(st, a, kw).items()))))[2])
        if t == 'rows' and m in ('first', 'one_or_none', 'one', 'all', 'fetchone', 'fetchall', 'scalars'):
            if m == 'scalars':
                return v
            return self.pick(st, list(v[2]), {'fetchone': 'first', 'fetchall': 'all'}.get(m, m))
        c = self.column(v) if t == 'attr' else None
        if c is not None and len(a) == 1:
            if m in ('is_', '__eq__'):
                return T('cond', c, fz[0])
            if m in ('is_not', 'isnot', '__ne__'):
                return T('cond', c, fz[0], 'not')
            if m == 'in_':
                return T('cond', c, self.iterate(st, a[0]), 'in')
            if m in ('like', 'ilike', 'startswith', 'endswith', 'contains', 'icontains', 'istartswith', 'match', 'regexp_match'):
                return T('cond', c, fz[0], m)
        if t in ('sql', 'stmt', 'query', 'rows'):
            raise Undecided('database method %s.%s' % (t, m))
        return super().meth_crypto(s, st, v, m, a, kw)

    def pick(self, st, r, m):
        if m == 'all':
            return st.new(ListO(tuple(r)))
        if m == 'count':
            return K(len(r))
        if m == 'scalar':
            return K(r[0][2]) if r else NONE
        if m == 'first':
            return r[0] if r else NONE
        if not r:
            if m == 'one':
                self.raise_(st, 'NoResultFound', cls=('ext', 'sqlalchemy.exc.NoResultFound'))
            return NONE
        if len(r) > 1:
            self.raise_(st, 'MultipleResultsFound', cls=('ext', 'sqlalchemy.exc.MultipleResultsFound'))
        return r[0]

    # ------------------------------------------------------------ rule language
    def sp_put_row(self, st, args, kw):
        for kind in ('ROW', 'COM'):
            n = self.rows(st, kind)
            self.set_rows(st, n + [(kind, max([e[1] for e in n] + [0]) + 1, self.freeze(st, args[0]), self.freeze(st, args[1]))], kind)
        return NONE

    def sp_committed(self, st, args, kw):
        """committed data of an owner"""
        return ('tup', tuple(e[3] for e in self.rows(st, 'COM') if self.equal(st, e[2], self.freeze(st, args[0]))))

    def sp_all_committed(self, st, args, kw):
        return ('tup', tuple(('tup', (e[2], e[3])) for e in self.rows(st, 'COM')))

    def sp_never_without(self, st, args, kw):
        """no commit may leave the key without a row"""
        st.flag(('keep', self.freeze(st, args[0])))
        return NONE

    def sp_restart(self, st, args, kw):
        """the process dies: what is not committed is lost"""
        self.set_rows(st, self.rows(st, 'COM'))
        st.flags = tuple(f for f in st.flags if not (isinstance(f, tuple) and f[0] == 'keep'))
        return NONE
