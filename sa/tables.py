"""Which class-level tables of message types are changed, by which statement."""
import ast
from .desugar import desugar
from .crypto import *

NAMES = ('c_param', 'c_default', 'c_allowed_values')


class Tables(Crypto):
    def __init__(self, root):
        super().__init__(root)
        self.owner = {}         # heap object of a table -> classes whose own body made or named it
        self.snap = {}          # heap object -> content when last looked at
        self.done = set()
        self.faults = []
        self.statements = 0

    def load_source(self, st, name, src, path):
        if name.split('.')[0] != PKG:
            return super().load_source(st, name, src, path)
        tree = desugar(ast.parse(src, path))
        self.modules[name] = path
        self.trees[name] = tree
        st.frames['mod:' + name] = {}
        ctx = Ctx('mod:' + name, name)
        self.stack.append(ctx)
        try:
            for s in tree.body:
                self.statements += 1
                outs = self.exec_block([s], st.copy(), ctx, None, None)
                if len(outs) != 1 or outs[0][1] != NEXT:
                    raise Undecided('module %s: %s' % (name, [o[1] for o in outs][:3]))
                st.become(outs[0][0])
                self.after(st, ctx, s)
        finally:
            self.stack.pop()

    def reach(self, st, v, into):
        if v[0] == 'tup':
            for x in v[1]:
                self.reach(st, x, into)
        elif v[0] == 'r' and v[1] not in into:
            o = st.obj(v)
            into[v[1]] = o
            if isinstance(o, DictO):
                for k, e in o.conc.items():
                    if e not in (DEL, MISS):
                        self.reach(st, e, into)
            elif isinstance(o, ListO):
                for e in o.items:
                    self.reach(st, e, into)

    def is_message(self, q):
        return any(c[0] == 'cls' and c[1].endswith('message.Message') for c in self.classes[q].mro)

    def own_tables(self, st, q):
        r = {}
        f = st.frame(self.classes[q].fid)
        for n in NAMES:
            v = f.get(n)
            if v is not None:
                self.reach(st, v, r)
        return r

    def after(self, st, ctx, s):
        for i, o in list(self.snap.items()):
            now = st.obj(('r', i))
            if now is not o and now != o:
                self.fault(st, ctx, s, i)
            self.snap[i] = now
        for q in list(self.classes):
            if q not in self.done and q.startswith(PKG + '.') and st.frames.get(self.classes[q].fid) is not None:
                self.done.add(q)
                if not self.is_message(q):
                    continue
                for i, o in self.own_tables(st, q).items():
                    self.owner.setdefault(i, set()).add(q)
                    self.snap[i] = o

    def fault(self, st, ctx, s, i):
        own = self.owner[i]
        if len(own) == 1 and not isinstance(s, ast.ClassDef):
            (q,) = own
            for x in ast.walk(s):
                if isinstance(x, (ast.Name, ast.Attribute)):
                    try:
                        n = x.id if isinstance(x, ast.Name) else x.attr
                    except AttributeError:
                        continue
                    if n == q.rsplit('.', 1)[1]:
                        return          # the type completes its own table
        new = s.name if isinstance(s, ast.ClassDef) else 'a statement of the module'
        for q in sorted(own):
            if ctx.mod + '.' + new != q:
                self.faults.append((q, '%s changes the tables of the message type %s' % (new, q[len(PKG) + 1:]), (ctx.mod, s.lineno, new)))

    # ------------------------------------------------------------ rule language
    def sp_tables_intact(self, st, args, kw):
        """no table of any message type differs from the loaded package"""
        for i, o in self.snap.items():
            n = st.heap.get(i)
            if n is not None and n is not o and n != o:
                return FALSE
        for q in self.done:
            f = st.frames.get(self.classes[q].fid)
            if f is not None:
                w = State.world_frames[self.classes[q].fid]
                if any(f.get(n) != w.get(n) for n in NAMES):
                    return FALSE
        return TRUE
