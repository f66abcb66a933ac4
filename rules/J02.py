from oidcmsg.oidc import AuthorizationRequest


def _start(C, claim):
    m = message(C)
    kw = kwargs()
    assume(claim in m)
    t = m[claim]
    assume(isinstance(t, str))
    return m, kw, t


def refused_unsigned(C, claim):
    m, kw, t = _start(C, claim)
    assume(is_jws(t))
    assume(header(t)['alg'] == 'none')
    if 'sigalg' in kw:
        assume(kw['sigalg'] != 'none')
    if 'allow_sign_alg_none' in kw:
        assume(kw['allow_sign_alg_none'] is False)
    refuses(m, kw, 'an unsigned token is accepted without having been allowed')


def refused_not_signed_token(C, claim):
    m, kw, t = _start(C, claim)
    assume(not is_jws(t))
    refuses(m, kw, 'something that is not a signed token is accepted as an ID token')


def refused_other_algorithm(C, claim):
    m, kw, t = _start(C, claim)
    assume('allowed_sign_alg' in kw)
    assume(is_jws(t))
    assume(header(t)['alg'] != 'none')
    assume(header(t)['alg'] != kw['allowed_sign_alg'])
    refuses(m, kw, 'a token signed with another algorithm than the allowed one is accepted')


def refused_other_pinned_algorithm(C, claim):
    """sigalg: the algorithm handed to token loading"""
    m, kw, t = _start(C, claim)
    assume('sigalg' in kw and kw['sigalg'])
    if 'verify' in kw:
        assume(kw['verify'])
    assume(is_jws(t))
    assume(header(t)['alg'] != 'none')
    assume(header(t)['alg'] != kw['sigalg'])
    refuses(m, kw, 'a token signed with another algorithm than the pinned one is accepted')


def refused_unknown_issuer(C, claim):
    m, kw, t = _start(C, claim)
    assume('keyjar' in kw)
    assume(is_jws(t))
    assume(header(t)['alg'] != 'none')
    assume('iss' not in payload(t) or payload(t)['iss'] not in kw['keyjar'])
    refuses(m, kw, 'a token from an issuer unknown to the key jar is accepted')


def refused_unless_verified(C, claim):
    """whatever is accepted as a signed token had its signature verified"""
    m, kw, t = _start(C, claim)
    if 'verify' in kw:
        assume(kw['verify'])
    assume('keyjar' in kw)
    assume(is_jws(t))
    assume(header(t)['alg'] != 'none')
    if accepted(m, kw):
        require(sig_verified(t, kw['keyjar']), 'a signed token is accepted without its signature having been verified')
    reached()


def unsigned_is_accepted_when_allowed(C, claim):
    """the permission has an effect"""
    m, kw, t = _start(C, claim)
    assume(is_jws(t))
    assume(header(t)['alg'] == 'none')
    assume('sigalg' in kw and kw['sigalg'] == 'none')
    if accepted(m, kw):
        reached()


def hint_unsigned(C):
    """the hint the request has in the end: the one sent or the one in the request object"""
    keep_apart('id_token_hint')
    m = message(C)
    kw = kwargs()
    assume('keyjar' in kw)
    if 'allow_sign_alg_none' in kw:
        assume(kw['allow_sign_alg_none'] is False)
    if accepted(m, kw) and 'id_token_hint' in m:
        t = m['id_token_hint']
        if isinstance(t, str):
            if is_jws(t):
                require(header(t)['alg'] != 'none', 'an unsigned hint is accepted without having been allowed')
    reached()


def hint_verified(C):
    keep_apart('id_token_hint')
    m = message(C)
    kw = kwargs()
    assume('keyjar' in kw)
    if accepted(m, kw) and 'id_token_hint' in m:
        t = m['id_token_hint']
        if isinstance(t, str):
            if is_jws(t) and header(t)['alg'] != 'none':
                require(sig_verified(t, kw['keyjar']), 'a signed hint is accepted without its signature having been verified')
    reached()


def good_hint(C):
    """a hint signed with a key of the key jar is no reason to refuse a request"""
    m = message(C)
    kw = kwargs()
    flag('always_verified')
    assume('id_token_hint' in m)
    t = m['id_token_hint']
    assume(isinstance(t, str))
    assume(t and is_jws(t))
    assume(header(t)['alg'] != 'none')
    assume('keyjar' in kw and 'iss' in payload(t) and payload(t)['iss'] in kw['keyjar'])
    sig_good(t, kw['keyjar'])
    for n in kw:
        assume(n == 'keyjar')
    for n in C.c_param:
        if C.c_param[n][1]:
            assume(n in m)
    for n in ('request', 'prompt'):
        assume(n not in m)
    assume(isinstance(m['scope'], list) and 'openid' in m['scope'] and 'offline_access' not in m['scope'])
    assume(isinstance(m['response_type'], list) and 'id_token' not in m['response_type'])
    accepts(m, kw, 'a request with an authentic hint is refused')
