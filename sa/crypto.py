"""Models of cryptojwt: what a signature check may conclude, and nothing about how.

  isjws(t)        t is a compact signed token
  jwshdr(t)       its header, jwsbody(t) its content
  sigok(t, keys)  the signature of t verifies under keys"""
from .spec import *


def tok(v):
    while v[0] == 't' and v[1] in ('strm', 'unicode'):
        v = v[2]
    return v


SIGALG_ERR = ('ext', 'cryptojwt.jws.exception.SignerAlgError')
NOKEY_ERR = ('ext', 'cryptojwt.jws.exception.NoSuitableSigningKeys')
VERERR = ('cls', 'oidcmsg.exception.VerificationError')
BADSIG_ERR = ('ext', 'cryptojwt.exception.BadSignature')


def collect(v, fn):
    if isinstance(v, DictO):
        if v.base is not None:
            collect(v.base, fn)
        collect(v.layers, fn)
        for a, b in v.conc.items():
            collect(a, fn)
            collect(b, fn)
    elif isinstance(v, tuple):
        if v and isinstance(v[0], str):
            if v[0] == 'k' and not (len(v) > 2 and isinstance(v[2], tuple)):
                return
            fn(v)
        for e in v:
            if isinstance(e, (tuple, DictO)):
                collect(e, fn)


def known_keys(keys, vk):
    """the keys are those obtained for the token from the key jar, and no others"""
    found = []

    def strip(x):
        if not isinstance(x, tuple):
            return x
        if x[:len(vk)] == vk and len(x) <= len(vk) + 1:
            found.append(x)
            return ()
        return tuple(strip(y) for y in x)
    rest = strip(keys)
    foreign = []
    collect(rest, lambda x: len(x) > 1 and x[0] == 't' and x[1] in ('sym', 'item', 'map', 'jwshdr', 'jwsbody', 'verifykeys', 'decryptkeys', 'attr') and foreign.append(x))
    return bool(found) and not foreign


class Crypto(Analyzer):
    jwe_possible = False
    apart = frozenset()

    def __init__(self, root):
        super().__init__(root)
        h = self.hooks
        h['cryptojwt.jws.jws.factory'] = self.jws_factory
        h['cryptojwt.jwe.jwe.factory'] = self.jwe_factory
        h['cryptojwt.jws.utils.left_hash'] = lambda s, st, n, a, k: T('left_hash', s.freeze(st, a[0]), s.freeze(st, a[1] if len(a) > 1 else k.get('func', K('HS256'))))
        h['cryptojwt.jws.jws.JWS'] = lambda s, st, n, a, k: T('JWS', tuple(s.freeze(st, x) for x in a), s.fzkw(st, k))
        h['cryptojwt.jwe.jwe.JWE'] = lambda s, st, n, a, k: T('JWE', tuple(s.freeze(st, x) for x in a), s.fzkw(st, k))
        h['cryptojwt.jwt.JWT'] = lambda s, st, n, a, k: T('JWT', tuple(s.freeze(st, x) for x in a), s.fzkw(st, k))
        h['json.JSONEncoder'] = lambda s, st, n, a, k: T('jsonencoder', tuple(sorted((x, self.freeze(st, y)) for x, y in k.items()))) if not a else None
        h['json.JSONDecoder'] = lambda s, st, n, a, k: T('jsondecoder', tuple(sorted((x, self.freeze(st, y)) for x, y in k.items()))) if not a else None
        h['meth'] = self.meth_crypto
        TERM_DATA_ATTRS.update({'jwt': self.a_jwt, 'headers': self.a_headers})

    def partition(self, st):
        r = []
        ap = self.apart
        for x in st.facts.f.items():
            a = x[0]
            if a[0] == 'isjws':
                r.append(x)
            elif ap and (a[0] == 'in' and a[1] in ap or a[0] in ('isa', 'truthy') and is_t(a[1]) and a[1][1] == 'item' and a[1][3] in ap):
                r.append(x)
        return frozenset(r) or None

    def sp_keep_apart(self, st, args, kw):
        """runs in which these parameters differ in presence or type are analysed separately"""
        self.apart = frozenset(args)
        return NONE

    def run_rule(self, *a, **k):
        self.apart = frozenset()
        return super().run_rule(*a, **k)

    def a_jwt(self, s, st, v, name):
        if v[1] == 'jws':
            return T('jwsjwt', v[2])
        if v[1] == 'jwe':
            return T('jwejwt', v[2])
        return T('attr', v, name)

    def a_headers(self, s, st, v, name):
        if v[1] == 'jwsjwt':
            return T('jwshdr', v[2])
        if v[1] == 'jwejwt':
            return T('jwehdr', v[2])
        return T('attr', v, name)

    def jws_factory(self, s, st, n, a, k):
        t = tok(self.freeze(st, a[0]))
        alg = self.freeze(st, a[1] if len(a) > 1 else k.get('alg', EMPTYS))
        if t[0] == 'k':
            return NONE
        if not self.decide(st, ('isjws', t)):
            return NONE
        st.facts.assume(('in', K('alg'), T('jwshdr', t)), True)
        st.facts.assume(('isa', T('item', T('jwshdr', t), K('alg')), 'str'), True)
        return T('jws', t, alg)

    def jwe_factory(self, s, st, n, a, k):
        if not self.jwe_possible:
            return NONE
        t = tok(self.freeze(st, a[0]))
        want = {x: self.freeze(st, a[i] if len(a) > i else k.get(x, EMPTYS)) for i, x in ((1, 'alg'), (2, 'enc'))}
        want = {x: y for x, y in want.items() if y not in (EMPTYS, NONE) and self.truth(st, y)}
        if not self.decide(st, ('isjwe', t)):
            if 'alg' in want:
                self.raise_(st, 'HeaderError', cls=('ext', 'cryptojwt.exception.HeaderError'))
            return NONE
        for x in ('alg', 'enc'):
            st.facts.assume(('in', K(x), T('jwehdr', t)), True)
            st.facts.assume(('isa', T('item', T('jwehdr', t), K(x)), 'str'), True)
            if x in want and not self.equal(st, T('item', T('jwehdr', t), K(x)), want[x]):
                self.raise_(st, 'HeaderError', cls=('ext', 'cryptojwt.exception.HeaderError'))
        return T('jwe', t, self.fzkw(st, k))

    def meth_crypto(self, s, st, v, m, a, kw):
        if v[1] == 'jsonencoder' and m == 'encode' and len(a) == 1:
            k = dict(v[2])
            return self.json_dumps(st, a[0], True, k.get('default', NONE) != NONE, k)
        if v[1] == 'jsondecoder' and m == 'decode' and len(a) == 1:
            return self.json_loads(st, a[0], v[2])
        if v[1] == 'logger':
            return NONE
        if v[1] == 'jwsjwt' and m == 'payload':
            return T('jwsbody', v[2])
        if v[1] == 'jws' and m in ('verify_compact', 'verify_compact_verbose'):
            return self.verify_compact(st, v, m, a, kw)
        if v[1] == 'jwe' and m == 'decrypt':
            t = tok(self.freeze(st, a[0]))
            keys = self.freeze(st, a[1]) if len(a) > 1 else NONE
            st.flag(('decrypt', t, keys))
            return T('decrypted', t, keys)
        if v[1] == 'JWE' and m == 'decrypt':
            return T('decrypted', tok(self.freeze(st, a[0])), self.freeze(st, a[1]) if len(a) > 1 else NONE)
        if v[1] == 'JWS' and m == 'sign_compact':
            return T('signed', v, tuple(self.freeze(st, x) for x in a), self.fzkw(st, kw))
        if m == 'get_jwt_verify_keys':
            if ('renewed', self.freeze(st, v)) in st.flags:
                return T('verifykeys', v, self.freeze(st, a[0]), K('renewed'))
            return T('verifykeys', v, self.freeze(st, a[0]))
        if m == 'get_decrypt_key':
            return T('decryptkeys', v, tuple(self.freeze(st, x) for x in a), self.fzkw(st, kw))
        if m == 'update' and not a and not kw and v[1] in ('map', 'sym', 'item'):
            st.flag(('renewed', self.freeze(st, v)))
            return NONE
        return None

    def verify_compact(self, st, v, m, a, kw):
        t = tok(self.freeze(st, a[0])) if a else v[2]
        keys = self.freeze(st, a[1] if len(a) > 1 else kw.get('keys', NONE))
        while keys[0] == 't' and keys[1] == 'listof':
            keys = keys[2]
        hdr_alg = T('item', T('jwshdr', t), K('alg'))
        pin = v[3]
        allow = a[2] if len(a) > 2 else kw.get('allow_none', FALSE)
        if self.equal(st, hdr_alg, K('none')):
            if self.truth(st, allow):
                return T('jwsbody', t)
            self.raise_(st, '', cls=SIGALG_ERR)
        if pin != EMPTYS and self.truth(st, pin):
            if not self.equal(st, hdr_alg, pin):
                self.raise_(st, '', cls=SIGALG_ERR)
        sg = a[3] if len(a) > 3 else kw.get('sigalg', NONE)
        if self.truth(st, sg) and not self.equal(st, sg, hdr_alg):
            self.raise_(st, '', cls=SIGALG_ERR)
        if not self.truth(st, keys):
            self.raise_(st, '', cls=NOKEY_ERR)
        if not self.decide(st, ('sigok', t, keys)):
            if self.choose(2) == 0:
                self.raise_(st, '', cls=NOKEY_ERR)
            self.raise_(st, '', cls=BADSIG_ERR)
        st.flag(('verified', t, keys))
        return T('jwsbody', t)

    # ------------------------------------------------------------ summaries
    inline_concrete = False

    def summarise_codecs(self):
        """message content taken over from a mapping of unknown content; representation for log lines"""
        self.fn_hooks['Message.from_dict'] = self.from_dict_sum
        self.fn_hooks['Message.to_dict'] = self.to_dict_sum
        self.fn_hooks['Message.__str__'] = lambda s, st, f, args, kw, star, node: T('str', T('logobj'))

    def summarise_loading(self, qual='Message.from_jwt'):
        """token loading decided elsewhere (J01, J02): an exception, or an instance with the content of the token"""
        def h(s, st, f, args, kw, star, node):
            kw = dict(kw)
            for i, n in ((1, 'txt'), (2, 'keyjar'), (3, 'verify')):
                if len(args) > i:
                    kw[n] = args[i]
            for n in ('txt', 'keyjar', 'verify'):
                if n not in kw and star is not None:
                    v = self.dict_get(st, star, K(n))
                    if v is not MISS:
                        kw[n] = v
            if 'txt' not in kw or 'keyjar' not in kw:
                self.raise_(st, 'TypeError')
            t = tok(self.freeze(st, kw['txt']))
            js = self.decide(st, ('isjws', t))
            if 'always_verified' not in st.flags and self.choose(2):
                self.raise_(st, '', cls=VERERR)
            st.flag(('loaded', t, self.freeze(st, kw['keyjar']), self.truth(st, kw.get('verify', TRUE))))
            o = st.obj(args[0])
            if js:
                st.facts.assume(('in', K('alg'), T('jwshdr', t)), True)
                o = o.set('jws_header', T('jwshdr', t))
            body = T('jwsbody', t) if js else T('json', t)
            st.setobj(args[0], o.set('jwt', t))
            d = o.attrs['_dict']
            st.setobj(d, self.dict_update(st.obj(d), DictO(body), st))
            return args[0]
        if not any(i.qual == qual for i in self.funcs.values()):
            raise Undecided('no function ' + qual)
        self.fn_hooks[qual] = h

    def sp_loaded(self, st, args, kw):
        """the token was loaded with signature verification against this key material"""
        t, kj = tok(self.freeze(st, args[0])), self.freeze(st, args[1])
        return K(('loaded', t, kj, True) in st.flags)

    def sp_token_content(self, st, args, kw):
        t = tok(self.freeze(st, args[0]))
        return T('jwsbody', t) if self.decide(st, ('isjws', t)) else T('json', t)

    def summarise_verify(self, *quals):
        """verification methods decided elsewhere: any verdict, or an exception"""
        def h(s, st, f, args, kw, star, node):
            if 'always_verified' in st.flags:
                return TRUE
            n = self.choose(2)
            if n == 1:
                self.raise_(st, '', cls=VERERR)
            v = T('verdict', args[0] if args[0][0] != 'r' else K(st.obj(args[0]).cls))
            st.facts.assume(('isa', v, 'bool'), True)
            return v
        for q in quals:
            if not any(i.qual == q for i in self.funcs.values()):
                raise Undecided('no function ' + q)
            self.fn_hooks[q] = h

    def summarise_idtoken(self, names, qual='IdToken.verify'):
        """ID token verification decided elsewhere (J03, J04): records which token passed with which of the caller's arguments"""
        def h(s, st, f, args, kw, star, node):
            o = st.obj(args[0])
            v = self.freeze(st, o.attrs['_dict'])
            toks = set()
            collect(v, lambda x: x[0] == 't' and x[1] in ('jwsbody', 'json') and toks.add(tok(x[2])))
            caller = T('map', 'kwargs')
            full = star is not None and star.base == caller and not star.layers and not any(k[2] in names for k in star.conc if k[0] == 'k') \
                and not any(n in kw for n in names)
            if not full:
                full = True
                for n in names:
                    mine = kw.get(n) or (self.dict_get(st, star, K(n)) if star is not None else MISS)
                    if self.decide(st, ('in', K(n), caller)):
                        full = full and mine == T('item', caller, K(n))
                    else:
                        full = full and mine is MISS
            if 'always_verified' not in st.flags:
                n = self.choose(3)
                if n == 1:
                    self.raise_(st, '', cls=VERERR)
                if n == 2:
                    return FALSE
            for t in toks:
                st.flag(('idtoken', t, full))
            return TRUE
        if not any(i.qual == qual for i in self.funcs.values()):
            raise Undecided('no function ' + qual)
        self.fn_hooks[qual] = h

    def sp_idtoken_checked(self, st, args, kw):
        """the token passed the ID token rules, with the caller's arguments"""
        return K(('idtoken', tok(self.freeze(st, args[0])), True) in st.flags)

    def watch_verdicts(self, inherited, all_fns):
        """record, while a watched instance is verified, what the inherited verification and those of other instances answer"""
        self.key_hooks = {k: self.verdict_hook for k in all_fns}
        self.inherited_fn = inherited

    def verdict_hook(self, s, st, f, args, kw, star, node):
        me = bool(args) and args[0] == self.watched
        if me and f[1] != self.inherited_fn:
            self.skip_hook = f[1]
            return self.call_fn(st, f, args, kw, node, star)
        kind = 'inherited' if me else 'nested'
        st.flag(kind + '_called')
        self.skip_hook = f[1]
        try:
            v = self.call_fn(st, f, args, kw, node, star)
        except PyExc:
            st.flag(kind + '_refused')
            raise
        if not self.truth(st, v):
            st.flag(kind + '_refused')
            return FALSE
        return v

    def sp_watch(self, st, args, kw):
        self.watched = args[0]
        return NONE

    def sp_always_verified(self, st, args, kw):
        """assume that the summarised verification methods find nothing wrong"""
        st.flag('always_verified')
        return NONE

    def from_dict_sum(self, s, st, f, args, kw, star, node):
        if len(args) < 2:
            return None
        src = args[1]
        ty = st.facts.types(src) if src[0] in ('t', 'k', 'tup') else None
        if ty and not ty & {'dict', 'object', 'Message'} or src[0] == 'r' and isinstance(st.obj(src), ListO):
            self.raise_(st, 'AttributeError', K('items'))
        d = self.as_dict(st, src)
        if d is None or d.base is None and not d.layers and not any(e[0] == 'ite' for e in d.conc.values()):
            if d is not None and not d.conc:
                return args[0]
            if d is not None and self.inline_concrete:
                return None
            if d is not None:      # concrete keys
                o = st.obj(args[0]).attrs['_dict']
                x = st.obj(o)
                for k, e in d.conc.items():
                    if e in (DEL, MISS):
                        continue
                    x = x.put(k, e)
                st.setobj(o, x)
                return args[0]
            return None
        o = st.obj(args[0]).attrs['_dict']
        st.setobj(o, self.dict_update(st.obj(o), d, st))
        return args[0]

    def to_dict_sum(self, s, st, f, args, kw, star, node):
        return st.new(self.as_dict(st, args[0]))

    # ------------------------------------------------------------ rule language
    def sp_sig_verified(self, st, args, kw):
        """the signature of the token was checked against keys for it from the key material"""
        t, kj = tok(self.freeze(st, args[0])), self.freeze(st, args[1])
        vk = T('verifykeys', kj, T('jwsjwt', t))
        return K(any(f[0] == 'verified' and f[1] == t and known_keys(f[2], vk) for f in st.flags))

    def sp_untrusted(self, st, args, kw):
        """tokens whose payload is part of the value although neither signature nor its absence was established"""
        kj = self.freeze(st, args[1])
        o = st.obj(args[0])
        v = self.freeze(st, o.attrs['_dict'] if isinstance(o, InstO) else args[0])
        toks = set()
        collect(v, lambda x: x[0] == 't' and x[1] == 'jwsbody' and toks.add(x[2]))
        for t in toks:
            vk = T('verifykeys', kj, T('jwsjwt', t))
            if any(f[0] == 'verified' and f[1] == t and known_keys(f[2], vk) for f in st.flags):
                continue
            if ('unsigned', t) in st.flags:
                continue
            return TRUE
        return FALSE

    def sp_undecrypted(self, st, args, kw):
        """content from an encrypted token not decrypted with the receiver's own keys"""
        kj = self.freeze(st, args[1])
        o = st.obj(args[0])
        v = self.freeze(st, o.attrs['_dict'] if isinstance(o, InstO) else args[0])
        bad = []

        def see(x):
            if x[0] == 't' and x[1] == 'decrypted':
                k = x[3]
                if not (k[0] == 't' and k[1] == 'decryptkeys' and k[2] == kj and (not k[3] or k[3] in ((K('sig'), EMPTYS),)) and dict(k[4] if k[4] else ()).get('owner', EMPTYS) == EMPTYS):
                    bad.append(x)
        collect(v, see)
        return K(bool(bad))

    def signed_parts(self, st, v):
        v = self.freeze(st, v)
        if v[0] != 't' or v[1] != 'signed':
            raise Undecided('not the result of signing: %s' % (fmt_val(v),))
        return v

    def sp_is_signed(self, st, args, kw):
        v = self.freeze(st, args[0])
        return K(v[0] == 't' and v[1] == 'signed')

    def sp_signed_content(self, st, args, kw):
        """what was handed to the signer, as a mapping"""
        v = self.signed_parts(st, args[0])
        a, k = v[2][2], dict(v[2][3])
        p = a[0] if a else k['msg']
        if p[0] == 't' and p[1] == 'jsondumps':
            p = p[2]
        return self.thaw_deep(st, p) if p[0] == 't' else self.thaw(st, p)

    def sp_signed_alg(self, st, args, kw):
        v = self.signed_parts(st, args[0])
        return dict(v[2][3]).get('alg', K('RS256'))

    def sp_signed_key(self, st, args, kw):
        v = self.signed_parts(st, args[0])
        return v[3][0] if v[3] else dict(v[4]).get('keys', NONE)

    def sp_is_instance_made(self, st, args, kw):
        return K(args[0][0] == 'r' and isinstance(st.obj(args[0]), InstO) and '$term' not in st.obj(args[0]).attrs)

    def sp_content_of(self, st, args, kw):
        """names of tokens whose payload the value takes content from"""
        t = tok(self.freeze(st, args[1]))
        o = st.obj(args[0]) if args[0][0] == 'r' else None
        v = self.freeze(st, o.attrs['_dict'] if isinstance(o, InstO) else args[0])
        hit = []
        collect(v, lambda x: x[0] == 't' and x[1] in ('jwsbody', 'json') and tok(x[2]) == t and hit.append(x))
        return K(bool(hit))

    def sp_is_jws(self, st, args, kw):
        t = tok(self.freeze(st, args[0]))
        r = self.decide(st, ('isjws', t))
        if r:
            st.facts.assume(('in', K('alg'), T('jwshdr', t)), True)
        return TRUE if r else FALSE

    def sp_is_jwe(self, st, args, kw):
        t = tok(self.freeze(st, args[0]))
        r = self.decide(st, ('isjwe', t))
        if r:
            for x in ('alg', 'enc'):
                st.facts.assume(('in', K(x), T('jwehdr', t)), True)
        return TRUE if r else FALSE

    def sp_jwe_header(self, st, args, kw):
        return T('jwehdr', tok(self.freeze(st, args[0])))

    def sp_sig_good_with_new_keys(self, st, args, kw):
        """assume that the token verifies only with the keys that the key jar has after an update"""
        t, kj = tok(self.freeze(st, args[0])), self.freeze(st, args[1])
        for e in ((), (K('renewed'),)):
            st.facts.assume(('truthy', T('verifykeys', kj, T('jwsjwt', t), *e)), True)
        st.facts.assume(('sigokr*', t), True)
        return NONE

    def sp_refreshed(self, st, args, kw):
        return K(('renewed', self.freeze(st, args[0])) in st.flags)

    def sp_verify_keys(self, st, args, kw):
        return T('verifykeys', self.freeze(st, args[0]), T('jwsjwt', tok(self.freeze(st, args[1]))))

    def sp_header(self, st, args, kw):
        return T('jwshdr', tok(self.freeze(st, args[0])))

    def sp_payload(self, st, args, kw):
        return T('jwsbody', tok(self.freeze(st, args[0])))

    def sp_sig_good(self, st, args, kw):
        """assume that every signature check of the token succeeds"""
        t, kj = tok(self.freeze(st, args[0])), self.freeze(st, args[1])
        vk = T('verifykeys', kj, T('jwsjwt', t))
        st.facts.assume(('truthy', vk), True)
        st.facts.assume(('sigok*', t), True)
        return NONE

    def decide(self, st, atom, bind=True):
        if atom[0] == 'sigok' and st.facts.f.get(('sigok*', atom[1])):
            return True
        if atom[0] == 'sigok' and st.facts.f.get(('sigokr*', atom[1])):
            hit = []
            collect(atom[2], lambda x: x[0] == 't' and x[1] == 'verifykeys' and len(x) > 4 and hit.append(x))
            return bool(hit) or atom[2][:2] == ('t', 'verifykeys') and len(atom[2]) > 4
        return super().decide(st, atom, bind)

    def assume(self, st, atom, v, bind=True):
        super().assume(st, atom, v, bind)
        # established facts that joins of states must not lose
        if v and atom[0] == 'one' and len(atom[2]) == 1 and K('none') in atom[2]:
            x = atom[1]
            if is_t(x) and x[1] == 'item' and is_t(x[2]) and x[2][1] == 'jwshdr' and x[3] == K('alg'):
                st.flag(('unsigned', x[2][2]))

    def sp_left_hash(self, st, args, kw):
        return T('left_hash', self.freeze(st, args[0]), self.freeze(st, args[1]))

    def sp_kwargs(self, st, args, kw):
        """keyword arguments of a caller: any names except those of the called function's own parameters"""
        t = T('map', args[0][2] if args else 'kwargs')
        for n in ('self', 'msg', 'check_hash', 'claim', '', 'item'):
            st.facts.assume(('in', K(n), t), False)
        return st.new(DictO(t))

    def meth_total(self):
        pass
