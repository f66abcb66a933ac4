from cryptojwt.exception import HeaderError

WHY = {'alg': 'a token is %s although its key was not encrypted with the demanded algorithm',
       'enc': 'a token is %s although its content was not encrypted with the demanded algorithm',
       'plain': 'a token that is not encrypted is %s although encryption was demanded'}


def _wrong(kw, tok, how):
    """the caller demands something else than the token offers"""
    name = 'encenc' if how == 'enc' else 'encalg'
    assume(name in kw)
    assume(isinstance(kw[name], str) and kw[name])
    if how == 'plain':
        assume(not is_jwe(tok))
    else:
        assume(is_jwe(tok))
        assume(jwe_header(tok)[how] != kw[name])


def load_wrong(C, how):
    kw = kwargs()
    assume('keyjar' not in kw and 'txt' not in kw)
    m = C()
    kj = sym('keyjar')
    tok = sym('token')
    assume(isinstance(tok, str))
    _wrong(kw, tok, how)
    try:
        m.from_jwt(tok, keyjar=kj, **kw)
    except Exception:
        p = sym('parameter')
        assume(p not in C.c_default)
        require(p not in m, 'content of a refused token is in the message')
        reached()
        return
    fail(WHY[how] % 'loaded')


def load_right(C):
    kw = kwargs()
    assume('keyjar' not in kw and 'txt' not in kw)
    m = C()
    kj = sym('keyjar')
    tok = sym('token')
    assume(isinstance(tok, str))
    assume(is_jwe(tok))
    for name, h in (('encalg', 'alg'), ('encenc', 'enc')):
        if name in kw:
            assume(kw[name] == jwe_header(tok)[h])
    try:
        m.from_jwt(tok, keyjar=kj, **kw)
    except HeaderError:
        fail('a token that is encrypted as demanded is refused for its encryption')
    except Exception:
        reached()
        return
    require(same(m.jwe_header, jwe_header(tok)), 'the header of the encryption is not that of the token')
    reached()


def carried_wrong(C, claim, how):
    m = message(C)
    kw = kwargs()
    assume(claim in m)
    if claim != 'request':
        assume('request' not in m)
    tok = m[claim]
    assume(isinstance(tok, str) and tok)
    _wrong(kw, tok, how)
    refuses(m, kw, WHY[how] % ('accepted as ' + claim))


def carried_right(C, claim):
    m = message(C)
    kw = kwargs()
    for n in kw:
        assume(n in ('keyjar', 'encalg', 'encenc'))
    assume(claim in m)
    for n in ('request', 'id_token_hint'):
        assume(n == claim or n not in m)
    tok = m[claim]
    assume(isinstance(tok, str) and tok)
    assume(is_jwe(tok))
    for name, h in (('encalg', 'alg'), ('encenc', 'enc')):
        if name in kw:
            assume(kw[name] == jwe_header(tok)[h])
    try:
        m.verify(**kw)
    except HeaderError:
        fail('a %s that is encrypted as demanded is refused for its encryption' % claim)
    except Exception:
        reached()
        return
    reached()
