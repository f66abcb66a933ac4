from cryptojwt.jws.exception import NoSuitableSigningKeys
from oidcmsg.message import Message


def _outcome(C, kw):
    """load an unknown token into an empty message; was the load successful"""
    m = C()
    before = dict(m.items())
    kj = sym('keyjar')
    tok = sym('token')
    assume(isinstance(tok, str))
    try:
        m.from_jwt(tok, keyjar=kj, **kw)
    except Exception:
        # loading failed: nothing from a token may have been taken over
        if untrusted(m, kj):
            fail('content of an unverified token is in the message although loading failed')
        reached()
        return
    if untrusted(m, kj):
        fail('content of a signed token is taken over without its signature having been verified')
    if undecrypted(m, kj):
        fail('content of a token decrypted with other than the receiver\'s own keys')
    reached()


def _kw():
    kw = kwargs()
    assume('keyjar' not in kw and 'txt' not in kw)
    return kw


def verified_by_default(C):
    kw = _kw()
    assume('verify' not in kw)
    _outcome(C, kw)


def verified_when_asked_for(C):
    kw = _kw()
    assume('verify' in kw and kw['verify'])
    _outcome(C, kw)


def fails_without_key(C):
    kw = _kw()
    if 'verify' in kw:
        assume(kw['verify'])
    m = C()
    kj = sym('keyjar')
    tok = sym('token')
    assume(isinstance(tok, str))
    assume(is_jws(tok))
    assume(header(tok)['alg'] != 'none')
    assume(not kj or not verify_keys(kj, tok))
    try:
        m.from_jwt(tok, keyjar=kj, **kw)
    except Exception:
        reached()
        return
    fail('a signed token is loaded although there is no key to verify it with')


def good_token_is_loaded(C):
    kw = _kw()
    m = C()
    kj = sym('keyjar')
    tok = sym('token')
    assume(isinstance(tok, str))
    assume(is_jws(tok) and kj)
    assume('sigalg' not in kw)
    sig_good(tok, kj)
    try:
        m.from_jwt(tok, keyjar=kj, **kw)
    except Exception:
        fail('a correctly signed token is not loaded')
    require(content_of(m, tok), 'the content of a correctly signed token is not taken over')
    require(same(m.jws_header, header(tok)), 'the header is not that of the token')


def loaded_when_asked_not_to_verify(C):
    kw = _kw()
    assume('verify' in kw and kw['verify'] is False)
    assume('sigalg' not in kw)
    m = C()
    kj = sym('keyjar')
    tok = sym('token')
    assume(isinstance(tok, str))
    assume(is_jws(tok))
    try:
        m.from_jwt(tok, keyjar=kj, **kw)
    except Exception:
        fail('a token is refused for its signature although the caller asked for it not to be verified')
    require(content_of(m, tok), 'the content of a token is not taken over')
    reached()


def keys_are_refreshed(C):
    """none of the keys at hand fits: the key jar gets the chance to fetch new ones"""
    kw = _kw()
    m = C()
    kj = sym('keyjar')
    tok = sym('token')
    assume(isinstance(tok, str))
    assume(is_jws(tok) and kj and verify_keys(kj, tok))
    assume(header(tok)['alg'] != 'none')
    if 'verify' in kw:
        assume(kw['verify'])
    try:
        m.from_jwt(tok, keyjar=kj, **kw)
    except NoSuitableSigningKeys:
        require(refreshed(kj), 'a token is refused for want of a key without the key jar having been asked for new ones')
    except Exception:
        reached()
    reached()


def new_keys_are_used(C):
    kw = _kw()
    m = C()
    kj = sym('keyjar')
    tok = sym('token')
    assume(isinstance(tok, str))
    assume(is_jws(tok) and kj)
    assume('sigalg' not in kw)
    assume(header(tok)['alg'] != 'none')
    if 'verify' in kw:
        assume(kw['verify'])
    sig_good_with_new_keys(tok, kj)
    try:
        m.from_jwt(tok, keyjar=kj, **kw)
    except NoSuitableSigningKeys:
        fail('a token is refused although the key jar got the key for it')
    except Exception:
        reached()
        return
    require(content_of(m, tok), 'the content of a correctly signed token is not taken over')
    reached()
