import os
from oidcmsg import add_base_path
from oidcmsg import proper_path


def atext(name):
    p = sym(name)
    assume(isinstance(p, str))
    return p


def normal():
    r = proper_path(atext('path'))
    if not isinstance(r, str) or not r.startswith('./') or not r.endswith('/'):
        fail('the path does not start with ./ and end with /')
    reached()


def ended(r, p):
    return r == p if p.endswith('/') else r == p + '/'


def already():
    p = atext('path')
    assume(p.startswith('./'))
    if not ended(proper_path(p), p):
        fail('a path that starts with ./ is changed')
    reached()


def absolute():
    p = atext('path')
    assume(p.startswith('/'))
    if not ended(proper_path(p), '.' + p):
        fail('an absolute path is not made relative')
    reached()


def plain():
    p = atext('path')
    assume(p)
    assume(not p.startswith('.'))
    assume(not p.startswith('/'))
    if not ended(proper_path(p), './' + p):
        fail('a relative path is not kept')
    reached()


def known_path(p, expected):
    r = proper_path(p)
    if r != expected:
        fail('%s becomes %s' % (p, r))
    if proper_path(r) != r:
        fail('normalising twice differs from normalising once')
    reached()


def twice():
    p = atext('path')
    r = proper_path(p)
    if proper_path(r) != r:
        fail('normalising twice differs from normalising once')
    reached()


def placed(old, new, base, what):
    """what became of a listed entry"""
    if old.startswith('/') or not old:
        if new != old:
            fail('%s: an absolute path is rewritten' % what)
    elif new != os.path.join(base, old):
        fail('%s: a relative path is not put below the base' % what)


def top(attrs, given):
    base = atext('base')
    conf = {a: atext(a) for a in given}
    old = dict(conf)
    add_base_path(conf, {'': list(attrs)}, base)
    untouched(attrs, given, old, conf, base)
    reached()


def untouched(attrs, given, old, conf, base):
    if len(conf) != len(old):
        fail('entries are added or removed')
    for a in given:
        if a in attrs:
            placed(old[a], conf[a], base, a)
        elif conf[a] != old[a]:
            fail('an entry that is not listed is rewritten')


def section(attrs, given):
    base = atext('base')
    part = {a: atext(a) for a in given}
    old = dict(part)
    x = sym('other')
    conf = {'before': x, 'here': part, 'after': {a: 'x/y' for a in attrs}}
    listed = {'here': list(attrs), 'gone': list(attrs)}
    add_base_path(conf, listed, base)
    untouched(attrs, given, old, conf['here'], base)
    if conf['before'] != x or len(conf) != 3 or conf['after'] != {a: 'x/y' for a in attrs}:
        fail('a section that is not listed is rewritten')
    if listed != {'here': list(attrs), 'gone': list(attrs)}:
        fail('the listing is changed')
    reached()


def itself():
    base = atext('base')
    p, q, r = atext('p'), atext('q'), atext('r')
    conf = {'a': p, 'b': q, 'c': r}
    add_base_path(conf, {'a': None, 'zzz': None, 'c': None}, base)
    placed(p, conf['a'], base, 'a')
    placed(r, conf['c'], base, 'c')
    if conf['b'] != q or len(conf) != 3:
        fail('an entry that is not listed is rewritten')
    reached()


def deeper():
    base = atext('base')
    p, q, r, s, t = atext('p'), atext('q'), atext('r'), atext('s'), atext('t')
    conf = {'s1': {'s2': {'x': p, 'y': q, 's3': {'z': r}}, 'x': 'a/b', 'f': s}, 'top': t}
    add_base_path(conf, {'s1': {'s2': {'': ['x'], 's3': {'z': None}}, 'f': None, 's4': ['x']}, 's5': {'s6': ['x']}, '': ['top']}, base)
    placed(p, conf['s1']['s2']['x'], base, 'x')
    placed(r, conf['s1']['s2']['s3']['z'], base, 'z')
    placed(s, conf['s1']['f'], base, 'f')
    placed(t, conf['top'], base, 'top')
    if conf['s1']['s2']['y'] != q or conf['s1']['x'] != 'a/b' or len(conf) != 2 or len(conf['s1']) != 3 or len(conf['s1']['s2']) != 3:
        fail('an entry that is not listed is rewritten')
    reached()


def any_listed():
    """any configuration, any listed name"""
    base = atext('base')
    conf = symdict('conf')
    a, b = atext('a'), atext('b')
    assume(a != b)
    old = {}
    for x in (a, b):
        if x in conf:
            old[x] = conf[x]
            assume(isinstance(old[x], str))
    add_base_path(conf, {'': [a]}, base)
    for x in (a, b):
        if (x in conf) != (x in old):
            fail('entries are added or removed')
    if b in old and conf[b] != old[b]:
        fail('an entry that is not listed is rewritten')
    if a in old:
        placed(old[a], conf[a], base, 'a')
    reached()
