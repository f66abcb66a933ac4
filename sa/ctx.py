"""Stores made by handlers outside the repository, and key jars, as terms; what is done to a key jar is recorded."""
from .files import *


def canon(st, v):
    """a dictionary with its keys in a fixed order"""
    if v[0] == 'r':
        v = T('dct', st.obj(v)) if isinstance(st.obj(v), DictO) else v
    if v[0] == 't' and v[1] == 'dct':
        o = v[2]
        return T('dct', DictO(o.base, o.layers, dict(sorted(((k, e) for k, e in o.conc.items() if e not in (DEL, MISS) or o.base is not None or o.layers), key=lambda e: repr(e[0])))))
    return v


class Ctx(Files):
    def __init__(self, root):
        super().__init__(root)
        h = self.hooks
        h['call_term'] = self.call_made
        for n in ('cryptojwt.KeyJar', 'cryptojwt.key_jar.KeyJar'):
            h[n] = lambda s, st, n, a, k: self.kj_make(st, 'KeyJar', self.kj_args(st, a, k, ('ca_certs', 'verify_ssl', 'keybundle_cls', 'remove_after', 'httpc', 'httpc_params', 'storage')))
        for n in ('init_key_jar', 'build_keyjar'):
            h['cryptojwt.key_jar.' + n] = lambda s, st, n, a, k: self.kj_make(st, n.rsplit('.', 1)[1], self.kj_args(st, a, k, (
                'public_path', 'private_path', 'key_defs', 'issuer_id', 'read_only', 'storage')))
        h['setattr'] = self.kj_setattr

    def import_any(self, s, st, n, a, k):
        if a[0][0] == 'k' and self.module_exists(a[0][2]):
            return self.import_module(st, a[0][2])
        return T('imported', self.freeze(st, a[0]))

    def call_made(self, s, st, f, args, kwargs, node):
        if f[1] == 'attr' and f[2][0] == 't' and f[2][1] == 'imported':
            return self.made(st, f[2], f[3] if isinstance(f[3], str) else f[3][2], args, kwargs)
        return None

    def made(self, st, mod, name, args, kwargs):
        if mod[2][0] != 'k' or kwargs or len(args) > 1:
            raise Undecided('store made in another way')
        r = T('store', mod[2][2] + '.' + name, self.kj_deep(st, args[0]) if args else NONE)
        self.assume(st, ('truthy', r), True)
        return r

    def kj_deep(self, st, v):
        """a dictionary as a term, its keys in a fixed order"""
        v = canon(st, v)
        if v[0] == 't' and v[1] == 'dct':
            o = v[2]
            return T('dct', DictO(o.base, o.layers, {k: self.kj_deep(st, e) for k, e in o.conc.items()}))
        return self.freeze(st, v)

    def kj_args(self, st, a, k, names):
        d = dict(zip(names, a))
        d.update({x: y for x, y in k.items() if x != '**'})
        if '**' in k:
            for x, y in k['**'].items():
                d[x[2]] = y
        return tuple(sorted((x, self.kj_deep(st, y)) for x, y in d.items() if y != NONE))

    def kj_make(self, st, kind, args):
        r = T('KJ', kind, args)
        self.assume(st, ('truthy', r), True)
        return r

    def kj_setattr(self, s, st, v, name, x):
        if v[1] in ('KJ', 'sym'):
            st.flag(('kjset', v, name, self.freeze(st, x)))
            return True
        return None

    def meth_crypto(self, s, st, v, m, a, kw):
        if v[1] == 'imported':
            return self.made(st, v, m, a, kw)
        if v[1] == 'KJ' or v == T('sym', 'key jar'):
            fz = [self.kj_deep(st, x) for x in a]
            kz = {k: self.freeze(st, x) for k, x in kw.items() if k != '**'}
            if m in ('import_jwks', 'import_jwks_as_json'):
                d = dict(zip(('jwks', 'issuer_id'), fz))
                d.update(kz)
                c = d.get('jwks', NONE)
                if c[0] == 't' and c[1] == 'json':
                    c = c[2]
                st.flag(('kjimport', v, c, d.get('issuer_id', NONE), K(m.endswith('json'))))
                return NONE
            if m == 'owners' or m == 'get_issuer_keys' and (fz[:1] == [EMPTYS] or kz.get('issuer_id') == EMPTYS):
                # of the issuers only the own name is of interest
                own = self.decide(st, ('in', EMPTYS, v))
                return st.new(ListO(((EMPTYS if m == 'owners' else T('ownkey', v)),) if own else ()))
            if m in ('export_jwks', 'export_jwks_as_json'):
                d = dict(zip(('private', 'issuer_id', 'usage'), fz))
                d.update(kz)
                return T('exported', v, d.get('private', FALSE), d.get('issuer_id', EMPTYS), K(m.endswith('json')), d.get('usage', NONE))
        return super().meth_crypto(s, st, v, m, a, kw)

    # ------------------------------------------------------------ rule language
    def sp_store(self, st, args, kw):
        """what a handler gives for a configuration"""
        r = T('store', args[0][2], NONE if len(args) == 1 else self.kj_deep(st, args[1]))
        self.assume(st, ('truthy', r), True)
        return r

    def sp_keyjar(self, st, args, kw):
        d = {}
        if len(args) > 1:
            for k, e in st.obj(args[1]).items():
                d[k[2]] = e
        return self.kj_make(st, args[0][2], self.kj_args(st, [], d, ()))

    def sp_imports(self, st, args, kw):
        """how many times this was imported into the key jar under this issuer: (key jar, content, issuer)"""
        v, c, i = [self.kj_deep(st, x) for x in args[:3]]
        return K(sum(1 for f in st.flags if isinstance(f, tuple) and f[0] == 'kjimport' and f[1:4] == (v, c, i)))

    def sp_all_imports(self, st, args, kw):
        return K(sum(1 for f in st.flags if isinstance(f, tuple) and f[0] == 'kjimport'))

    def sp_own_keys_under(self, st, args, kw):
        """the key jar's own private keys are also registered under the name"""
        v, i = [self.freeze(st, x) for x in args]
        for f in st.flags:
            if isinstance(f, tuple) and f[0] == 'kjimport' and f[1] == v and f[3] == i:
                c = f[2]
                if c[0] == 't' and c[1] == 'exported' and c[2] == v and c[3] == TRUE and c[4] == EMPTYS and c[5] == f[4] and c[6] == NONE:
                    return TRUE
        return FALSE

    def sp_attr_was_set(self, st, args, kw):
        v, n, x = args[0], args[1][2], self.freeze(st, args[2])
        return K(('kjset', v, n, x) in st.flags)

    def sp_any_attr_set(self, st, args, kw):
        return K(any(isinstance(f, tuple) and f[0] == 'kjset' and f[1] == args[0] for f in st.flags))
