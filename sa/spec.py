"""Rules: obligations written as small Python functions which the abstract interpreter runs on the analysed source.

Inside a rule:  message(C)   an instance of C whose parameters are unknown
                symdict(n), sym(n)   unknown mapping / value
                assume(c)    restrict to runs in which c holds
                fail(msg)    reaching this point violates the property
                require(c, msg)
Rules are analysed, never executed; every path that is feasible for the analysis is covered."""
import ast
import os
import sys
import time
from .world import *

sys.setrecursionlimit(20000)


class Violation:
    def __init__(self, rule, msg, where, path, trace):
        self.rule = rule
        self.msg = msg
        self.where = where
        self.path = path
        self.trace = trace


class Analyzer(World):
    def __init__(self, root):
        super().__init__(root)
        self.violations = []
        self.opaque = []
        self.reached_n = 0
        self.rule = None
        for n in dir(self):
            if n.startswith('sp_'):
                self.spec_fns[n[3:]] = getattr(type(self), n)

    # ------------------------------------------------------------ rule language
    def sp_assume(self, st, args, kw):
        for a in args:
            if not self.truth(st, a):
                raise Infeasible()
        return NONE

    def sp_reached(self, st, args, kw):
        self.reached_n += 1
        return NONE

    def sp_fail(self, st, args, kw):
        hangs_on = sorted({f[1] for f in st.flags if isinstance(f, tuple) and f[0] == 'opaque'})
        if hangs_on:
            self.opaque.append((self.rule, 'depends on %s, which has no model: %s' % (', '.join(hangs_on), args[0][2] if args else '')))
        else:
            self.violations.append(Violation(self.rule, args[0][2] if args else '', st.trace, list(st.facts.log), self.where()))
        self.reached_n += 1
        raise Infeasible()

    def sp_require(self, st, args, kw):
        if not self.truth(st, args[0]):
            return self.sp_fail(st, args[1:], kw)
        self.reached_n += 1
        return NONE

    def sp_sym(self, st, args, kw):
        return T('sym', *[a[2] if a[0] == 'k' else a for a in args])

    def sp_symdict(self, st, args, kw):
        return st.new(DictO(T('map', args[0][2])))

    def sp_symlist(self, st, args, kw):
        t = T('seq', args[0][2])
        e = T('elem', 'x', t)
        return st.new(ListO((('gen', e, t, (), e),)))

    def sp_message(self, st, args, kw):
        """instance with unknown parameters; keyword arguments fix some"""
        cls = args[0]
        name = args[1][2] if len(args) > 1 else 'm'
        ref = self.instantiate(st, cls, [], {}, None, None)
        o = st.obj(ref)
        d = DictO(T('body', name))
        for k, v in kw.items():
            d = d.put(K(k), v)
        o = o.set('_dict', st.new(d))
        for n in ('lax', 'jwt', 'jws_header', 'jwe_header'):
            # what loading or writing it may have left behind
            if n in o.attrs:
                o = o.set(n, T('was', n, name))
        st.setobj(ref, o)
        return ref

    def sp_attrs(self, st, args, kw):
        """attribute values of an instance as a dict"""
        return self.getattr(st, args[0], '__dict__')

    def sp_exact_message(self, st, args, kw):
        cls = args[0]
        ref = self.instantiate(st, cls, [], {}, None, None)
        st.setobj(ref, st.obj(ref).set('_dict', args[1]))
        return ref

    def sp_flag(self, st, args, kw):
        st.flag(args[0][2])
        return NONE

    def sp_flagged(self, st, args, kw):
        return K(args[0][2] in st.flags)

    def sp_atom(self, st, args, kw):
        """uninterpreted proposition about values"""
        return TRUE if self.decide(st, ('p',) + tuple(a[2] if a[0] == 'k' and i == 0 else self.freeze(st, a) for i, a in enumerate(args))) else FALSE

    def sp_same(self, st, args, kw):
        return K(self.freeze(st, args[0]) == self.freeze(st, args[1]))

    def sp_now(self, st, args, kw):
        return T('NOW')

    def sp_term(self, st, args, kw):
        return T(*[a[2] if i == 0 else self.freeze(st, a) for i, a in enumerate(args)])

    def sp_debug(self, st, args, kw):
        print('DEBUG', [self.freeze(st, a) for a in args], file=sys.stderr)
        return NONE

    def sp_exc_type(self, st, args, kw):
        e = args[0]
        return e[1]

    def sp_kind(self, st, args, kw):
        return K(self.known_type(st, args[0]) or '?')

    def sp_nomerge(self, st, args, kw):
        return NONE

    # ------------------------------------------------------------ running
    def load_rules(self, path, extra=''):
        name = 'spec_' + os.path.basename(path)[:-3]
        with open(path) as f:
            src = f.read()
        return self.load_rule_source(name, src + extra, path)

    def load_rule_source(self, name, src, path='<rules>'):
        tree = ast.parse(src, path)
        st = State()
        self.modules[name] = path
        frame = {n: ('spec', n) for n in self.spec_fns}
        st.frames['mod:' + name] = frame
        ctx = Ctx('mod:' + name, name)
        self.stack.append(ctx)
        try:
            outs = self.exec_block(tree.body, st, ctx, None, None)
        finally:
            self.stack.pop()
        if len(outs) != 1 or outs[0][1] != NEXT:
            raise Undecided('rules do not load: %s' % [o[1] for o in outs][:2])
        s = outs[0][0]
        # rules become part of the immutable world
        State.world_heap.update(s.heap)
        State.world_frames.update(s.frames)
        State.world_nid = max(State.world_nid, s.nid)
        return s.frames['mod:' + name]

    def run_rule(self, name, fn, args=(), kwargs=None):
        """outcomes of one obligation: list of (state, kind, value)"""
        st = State()
        self.rule = name
        r0 = self.reached_n
        outs = self.explore(st, lambda s: self.call(s, fn, list(args), dict(kwargs or {})))
        for s, k, v in outs:
            if k == 'exc':
                self.violations.append(Violation(name, 'unexpected %s%r' % (exc_name(v), tuple(x for x in v[2] if x[0] == 'k')[:2]), v[3], list(s.facts.log), v[3]))
        return outs, self.reached_n - r0


def exc_name(e):
    c = e[1]
    return c[1].split('.')[-1] if isinstance(c[1], str) else 'exception'


def fmt_val(v, depth=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if v[0] == 'k':
        return repr(v[2]) if v[1] not in ('list',) else '[%s]' % ', '.join(fmt_val(x) for x in v[2])
    if depth > 3:
        return '…'
    if v[0] == 't':
        op, a = v[1], v[2:]
        if op == 'item':
            return '%s[%s]' % (fmt_val(a[0], depth + 1), fmt_val(a[1], depth + 1))
        if op in ('body', 'map', 'seq', 'sym'):
            return '%s' % (a[0],)
        if op == 'elem':
            return 'elem%s' % (a[-1] if isinstance(a[-1], int) else '')
        return '%s(%s)' % (op, ', '.join(fmt_val(x, depth + 1) for x in a))
    if v[0] in ('cls', 'ext', 'bi', 'mod'):
        return v[1].split('.')[-1]
    if v[0] == 'tup':
        return '(%s)' % ', '.join(fmt_val(x, depth + 1) for x in v[1])
    if v[0] == 'dct':
        return '{…}'
    return '<%s>' % (v[0],)


def fmt_lit(lit):
    a, val = lit
    op = a[0]
    if op == 'in':
        s = '%s in %s' % (fmt_val(a[1]), fmt_val(a[2]))
    elif op == 'one':
        s = '%s in {%s}' % (fmt_val(a[1]), ', '.join(sorted(fmt_val(x) for x in a[2])[:6]))
    elif op == 'eq':
        s = '%s == %s' % (fmt_val(a[1]), fmt_val(a[2]))
    elif op == 'truthy':
        s = 'bool(%s)' % fmt_val(a[1])
    elif op == 'isa':
        s = 'isinstance(%s, %s)' % (fmt_val(a[1]), a[2])
    elif op == 'le':
        s = '%s%+d <= 0' % (' + '.join('%s*%d' % (fmt_val(t), c) if c != 1 else fmt_val(t) for t, c in a[1]), a[2])
    else:
        s = '%s(%s)' % (op, ', '.join(fmt_val(x) if isinstance(x, tuple) else str(x) for x in a[1:]))
    return s if val else 'not (%s)' % s
