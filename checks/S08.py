"""The table that ships for the SQL store, judged on the evaluated declarations (whatever expressions produce them)."""
from sa.crypto import *
from sa.objects import TERM_DATA_ATTRS
from sa.driver import State


class Tables(Crypto):
    """remembers through what a table is created"""
    def __init__(self, root):
        super().__init__(root)
        prev = self.hooks['meth']

        def meth(s, st, v, m, a, kw):
            if m in ('create_all', 'create'):
                st.flag(('created', tuple(s.freeze(st, x) for x in list(a) + [kw[n] for n in ('bind',) if n in kw])))
            return prev(s, st, v, m, a, kw)

        self.hooks['meth'] = meth
        self.hooks['call_term'] = lambda s, st, f, a, kw, node: meth(s, st, f[2], f[3], a, kw) if f[1] == 'attr' and f[3] in ('create_all', 'create') else None

        for n in ('metadata', '__table__', 'registry'):
            TERM_DATA_ATTRS[n] = True

    def getattr(self, st, v, name):
        if v[0] == 'cls' and name in ('metadata', '__table__', 'registry') and self.find_attr(st, v[1], name) is None:
            return T('attr', T('v', v), name)
        return super().getattr(st, v, name)

    def sp_created_at(self, st, args, kw):
        u = self.freeze(st, args[0])
        for f in st.flags:
            if isinstance(f, tuple) and f[0] == 'created':
                for t in _terms(f[1]):
                    if t[:2] == ('t', 'call') and t[2][0] == 'ext' and t[2][1].endswith('create_engine') and (t[3][:1] == (u,) or dict(t[4]).get('url') == u):
                        return K(True)
        return K(False)


def _column(v):
    return isinstance(v, tuple) and v[:2] == ('t', 'call') and v[2][0] == 'ext' and v[2][1].split('.')[-1] in ('Column', 'mapped_column')


def _terms(v):
    if isinstance(v, tuple):
        yield v
        for e in v:
            yield from _terms(e)


def _true(kw, n):
    return kw.get(n, ('k', 'bool', False)) not in (('k', 'bool', False), ('k', 'NoneType', None))


def run(ck):
    a = ck.analyzer(Tables)
    a.inline_concrete = True
    ck.explain = 'The column declarations of every mapped class of the database set-up are evaluated and their arguments examined; the columns are compared with those that the SQL store reads and writes; create_database is followed on unknown configurations.'
    st = State()
    mapped = []
    ck.cls('oidcmsg.storage.db_setup.Thing')
    for q in sorted(a.classes):
        if not q.startswith('oidcmsg.storage.') or a.classes[q].node is None:
            continue
        names = []
        for m in a.classes[q].mro:
            if m[0] == 'cls' and m[1] in a.classes and a.classes[m[1]].fid is not None:
                a.find_attr(st, m[1], '__doc__')
                names += [n for n in st.frame(a.classes[m[1]].fid) if isinstance(n, str)]
        cols = {n: v for n, v in ((n, a.find_attr(st, q, n)) for n in names) if _column(v)}
        if cols and a.find_attr(st, q, '__tablename__') is not None:
            mapped.append((q, cols, a.find_attr(st, q, '__table_args__'), a.find_attr(st, q, '__tablename__')))
    ck.need(len(mapped), 1, 'mapped classes')
    for q, cols, extra, name in mapped:
        where = ck.cname(('cls', q))

        def say(what, good, text):
            ck.require(good, '%s(%s)' % (what, where), text, ck.class_where(('cls', q)))
        kw = {n: {k: v for k, v in c[4]} for n, c in cols.items()}
        for n in ('owner', 'data'):
            say('column %s' % n, n in cols, 'the store reads and writes a column %s that the table does not have' % n)
            if n not in cols:
                continue
            say('%s may repeat' % n, not _true(kw[n], 'unique') and not _true(kw[n], 'primary_key'), 'two rows with the same %s are refused' % n)
            say('%s is stored under its own name' % n, not (cols[n][3] and cols[n][3][0][0] == 'k' and cols[n][3][0][2] != n) and kw[n].get('name', ('k', 'str', n))[2] == n, 'the column %s has another name' % n)
        unique = [t for t in _terms((extra,) + tuple(cols.values())) if t[:1] == ('ext',) and t[1].split('.')[-1] in ('UniqueConstraint', 'CheckConstraint', 'PrimaryKeyConstraint', 'ExcludeConstraint', 'ForeignKey', 'ForeignKeyConstraint')]
        unique += [t for t in _terms((extra,)) if t == ('unique', ('k', 'bool', True))]
        say('no constraint over rows', not unique, 'a constraint can refuse what the store writes')
        keys = [n for n in cols if _true(kw[n], 'primary_key')]
        say('primary key', keys and not set(keys) & {'owner', 'data'}, 'there is no primary key of its own')
        for n in cols:
            if n in ('owner', 'data'):
                continue
            types = [t[1].split('.')[-1] for t in cols[n][3] if t[0] == 'ext'] + [t[2][1].split('.')[-1] for t in cols[n][3] if t[:2] == ('t', 'call') and t[2][0] == 'ext']
            auto = n in keys and any(t in ('Integer', 'BigInteger', 'SmallInteger', 'INTEGER') for t in types) and kw[n].get('autoincrement', ('k', 'bool', True)) != ('k', 'bool', False)
            filled = auto or 'default' in kw[n] or 'server_default' in kw[n] or n not in keys and kw[n].get('nullable') != ('k', 'bool', False)
            say('%s fills itself' % n, filled, 'the column %s needs a value that the store does not give' % n)
            if n not in keys:
                say('%s does not single out rows' % n, not _true(kw[n], 'unique'), 'two rows may not have the same %s' % n)
            d = kw[n].get('default')
            if d is not None and any(t in ('DateTime', 'Date', 'TIMESTAMP', 'Time', 'DATETIME') for t in types):
                fixed = d[0] == 'k' or d[0] == 't' and d[1] != 'partial' and any(t[:1] == ('ext',) and t[1].startswith(('datetime.', 'time.')) or t[:1] == ('t',) and t[1] in ('utcnow', 'now', 'time') for t in _terms(d))
                say('%s is taken when the row is written' % n, not fixed, 'the default of %s is one fixed time, that of loading the module' % n)
    ck.rules('S08.py')
