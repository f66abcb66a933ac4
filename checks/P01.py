from sa.crypto import *

KNOWN = {'': './', '.': './', '/': './', './': './', '..': './', '../': './', 'a': './a/', 'a/': './a/', '/a': './a/', '/a/': './a/', './a': './a/', './a/': './a/', '../a': './a/', '../a/': './a/',
         '.a': './a/', '..a/b': './a/b/', '.../a': './a/', 'a/b/c': './a/b/c/', 'a.b': './a.b/', 'a/./b': './a/./b/', './../a': './../a/', './.': './.' + '/', ' a': './ a/', 'é/b': './é/b/'}


class Paths(Crypto):
    def __init__(self, root):
        super().__init__(root)
        for m in ('os.path.', 'posixpath.'):
            self.hooks[m + 'isabs'] = lambda s, st, n, a, k: self.strmeth(st, 'startswith', a[0], [K('/')], {})
            self.hooks[m + 'join'] = lambda s, st, n, a, k: self.joined(st, a)

    def joined(self, st, a):
        if len(a) == 2 and self.truth(st, self.strmeth(st, 'startswith', a[1], [K('/')], {})):
            return a[1]
        return T('call', ('ext', 'os.path.join'), tuple(self.freeze(st, x) for x in a), ())


def run(ck):
    a = ck.analyzer(Paths)
    a.inline_concrete = True
    a.path_merge = False
    ck.explain = ('proper_path is followed on an unknown text (its loop summarised) and on texts known only to start with "./", "/" or neither; add_base_path on configurations with unknown paths '
                  'and an unknown base, for every shape of listing (top level, section, section itself, nested, missing sections and entries) and on an unknown configuration with an unknown listed name.')
    fr = ck.load(ck.rules_path('P01.py'), ck.lib())
    T = lambda u: ('tup', tuple(ck.k(x) for x in u))
    for r in ('normal', 'twice', 'already', 'absolute', 'plain', 'itself', 'deeper', 'any_listed'):
        ck.rule(r, fr[r], [])
    for p, e in KNOWN.items():
        ck.rule('known_path(%r)' % p, fr['known_path'], [ck.k(p), ck.k(e)])
    for attrs in ((), ('a',), ('a', 'b'), ('b', 'a')):
        for given in ((), ('a',), ('b',), ('a', 'b'), ('a', 'b', 'c')):
            for r in ('top', 'section'):
                ck.rule('%s(%s; %s)' % (r, ','.join(attrs), ','.join(given)), fr[r], [T(attrs), T(given)])
