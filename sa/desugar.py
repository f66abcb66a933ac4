"""match statements as chains of conditions on a copy of the subject; patterns not listed here stay as they are (undecided)."""
import ast


class Plain(Exception):
    pass


def _load(n):
    return ast.Name(n, ast.Load())


def _call(f, *a):
    return ast.Call(_load(f), list(a), [])


def _and(cs):
    cs = [c for c in cs if not (isinstance(c, ast.Constant) and c.value is True)]
    return cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs) if cs else ast.Constant(True)


def _bind(name, x):
    # a non-empty tuple is true whatever is bound
    return ast.Tuple([ast.NamedExpr(ast.Name(name, ast.Store()), x)], ast.Load())


def _cond(p, x):
    """condition under which pattern p fits the expression made by x(); names are bound on the way"""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(x(), [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(x(), [ast.Is()], [ast.Constant(p.value)])
    if isinstance(p, ast.MatchAs):
        cs = [_cond(p.pattern, x)] if p.pattern else []
        if p.name:
            cs.append(_bind(p.name, x()))
        return _and(cs)
    if isinstance(p, ast.MatchOr):
        return ast.BoolOp(ast.Or(), [_cond(q, x) for q in p.patterns])
    if isinstance(p, ast.MatchSequence):
        if any(isinstance(q, ast.MatchStar) for q in p.patterns):
            raise Plain()
        cs = [_call('isinstance', x(), ast.Tuple([_load('list'), _load('tuple')], ast.Load())),
              ast.Compare(_call('len', x()), [ast.Eq()], [ast.Constant(len(p.patterns))])]
        return _and(cs + [_cond(q, _item(x, ast.Constant(i))) for i, q in enumerate(p.patterns)])
    if isinstance(p, ast.MatchMapping):
        if p.rest:
            raise Plain()
        cs = [ast.BoolOp(ast.Or(), [_call('isinstance', x(), _load('dict')), _call('hasattr', x(), ast.Constant('keys'))])]
        for k, q in zip(p.keys, p.patterns):
            cs += [ast.Compare(k, [ast.In()], [x()]), _cond(q, _item(x, k))]
        return _and(cs)
    if isinstance(p, ast.MatchClass):
        cs = [_call('isinstance', x(), p.cls)]
        if p.patterns:
            if len(p.patterns) > 1 or not isinstance(p.cls, ast.Name) or p.cls.id not in ('str', 'int', 'bool', 'float', 'list', 'dict', 'tuple', 'set', 'bytes'):
                raise Plain()
            cs.append(_cond(p.patterns[0], x))
        for a, q in zip(p.kwd_attrs, p.kwd_patterns):
            cs += [_call('hasattr', x(), ast.Constant(a)), _cond(q, lambda a=a: ast.Attribute(x(), a, ast.Load()))]
        return _and(cs)
    raise Plain()


def _item(x, k):
    return lambda: ast.Subscript(x(), k, ast.Load())


class _Matches(ast.NodeTransformer):
    n = 0

    def visit_Match(self, s):
        self.generic_visit(s)
        self.n += 1
        v = '_subject_%d' % self.n
        try:
            tests = [_and([_cond(c.pattern, lambda: _load(v))] + ([c.guard] if c.guard else [])) for c in s.cases]
        except Plain:
            return s
        chain = []
        for c, t in reversed(list(zip(s.cases, tests))):
            chain = [ast.copy_location(ast.If(t, c.body, chain), c.body[0])]
        r = [ast.copy_location(ast.Assign([ast.Name(v, ast.Store())], s.subject), s)] + chain
        for x in r:
            ast.fix_missing_locations(x)
        return r


def desugar(tree):
    if any(isinstance(n, ast.Match) for n in ast.walk(tree)):
        tree = _Matches().visit(tree)
    return tree
