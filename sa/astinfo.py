"""Syntax-level helpers: local names, liveness."""
import ast


class Names(ast.NodeVisitor):
    """names loaded in a subtree (including nested functions' free names, over-approximated)"""

    def __init__(self):
        self.loads = set()
        self.stores = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.loads.add(n.id)
        else:
            self.stores.add(n.id)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            self.loads.add(getattr(n, 'first', 'self'))
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'eval', 'exec'):
            self.loads.add('$all')
        self.generic_visit(n)


_lc = {}


def loads(node):
    k = id(node)
    r = _lc.get(k)
    if r is None:
        v = Names()
        if isinstance(node, list):
            for x in node:
                v.visit(x)
        elif node is not None:
            v.visit(node)
        r = (node, frozenset(v.loads), frozenset(v.stores))
        _lc[k] = r
    return r[1]


def stores(node):
    loads(node)
    return _lc[id(node)][2]


_live = {}


def live_before(stmts, after, loop=frozenset()):
    """names possibly read before being overwritten, for a statement list"""
    cur = after
    for s in reversed(stmts):
        cur = _live_stmt(s, cur, loop)
    return cur


def _targets(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        r = set()
        for e in t.elts:
            r |= _targets(e)
        return r
    if isinstance(t, ast.Starred):
        return _targets(t.value)
    return set()


def _live_stmt(s, after, loop):
    k = (id(s), after, loop)
    r = _live.get(k)
    if r is not None:
        return r[1]
    r = _live_stmt0(s, after, loop)
    _live[k] = (s, r)
    return r


def _live_stmt0(s, after, loop):
    if isinstance(s, ast.Assign):
        kill = set()
        for t in s.targets:
            kill |= _targets(t)
        r = (after - kill) | loads(s.value)
        for t in s.targets:
            if not isinstance(t, ast.Name):
                r = r | loads(t)
        return frozenset(r)
    if isinstance(s, ast.AnnAssign):
        r = after - _targets(s.target)
        if s.value is not None:
            r = r | loads(s.value)
        return frozenset(r | (loads(s.target) if not isinstance(s.target, ast.Name) else set()))
    if isinstance(s, ast.AugAssign):
        return frozenset(after | loads(s) | _targets(s.target) | loads(s.target))
    if isinstance(s, ast.If):
        return frozenset(live_before(s.body, after, loop) | live_before(s.orelse, after, loop) | loads(s.test))
    if isinstance(s, (ast.For, ast.AsyncFor)):
        kill = _targets(s.target)
        aft = live_before(s.orelse, after, loop)
        cur = after | aft
        for _ in range(3):
            b = live_before(s.body, frozenset(cur), frozenset(cur))
            n = frozenset(cur | (b - kill))
            if n == cur:
                break
            cur = n
        r = cur | loads(s.iter)
        if not isinstance(s.target, ast.Name):
            r = r | loads(s.target)
        return frozenset(r)
    if isinstance(s, ast.While):
        cur = frozenset(after | live_before(s.orelse, after, loop) | loads(s.test))
        for _ in range(3):
            n = frozenset(cur | live_before(s.body, cur, cur))
            if n == cur:
                break
            cur = n
        return cur
    if isinstance(s, ast.Try):
        fin = live_before(s.finalbody, after, loop)
        h = set()
        for x in s.handlers:
            hb = live_before(x.body, fin, loop)
            if x.name:
                hb = hb - {x.name}
            h |= hb
            if x.type is not None:
                h |= loads(x.type)
        els = live_before(s.orelse, fin, loop)
        body = live_before(s.body, frozenset(els), loop)
        # anything live in a handler is live throughout the body
        return frozenset(body | h | live_before(s.finalbody, frozenset(), loop))
    if isinstance(s, (ast.With, ast.AsyncWith)):
        b = live_before(s.body, after, loop)
        for i in s.items:
            if i.optional_vars is not None:
                b = b - _targets(i.optional_vars)
            b = b | loads(i.context_expr)
            if i.optional_vars is not None and not isinstance(i.optional_vars, ast.Name):
                b = b | loads(i.optional_vars)
        return frozenset(b)
    if isinstance(s, ast.Return):
        return loads(s.value) if s.value is not None else frozenset()
    if isinstance(s, ast.Raise):
        return loads(s)
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return frozenset((after - {s.name}) | loads(s))
    if isinstance(s, (ast.Break, ast.Continue)):
        return frozenset(loop)
    return frozenset(after | loads(s))


def has_break(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Continue)):
                return True
    return False


class FuncInfo:
    """static facts about one function / lambda"""

    def __init__(self, node, module, qual, cls, parent):
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls          # qualified class name when defined in a class body
        self.parent = parent    # enclosing FuncInfo
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.locals = set(self.pos) | set(self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False
        self.has_nested = False
        for x in ast.walk(node):
            if self.pos and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and not hasattr(x, 'first'):
                x.first = self.pos[0]   # super() reads the first parameter
        if not isinstance(node, ast.Lambda):
            self._scan(node.body)
        else:
            self._scan([node.body])
        self.locals -= self.globals | self.nonlocals

    def _scan(self, stmts):
        stack = list(stmts)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
                self.has_nested = True
                stack.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                self.has_nested = True
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                self.has_nested = self.has_nested
                # comprehension variables live in their own scope; still walk for yields/walrus
                for g in n.generators:
                    stack.append(g.iter)
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split('.')[0])
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and getattr(n, 'name', None):
                self.locals.add(n.name)
            stack.extend(ast.iter_child_nodes(n))
