def _start(C, where):
    """the message and the parameters that govern: its own or those of its request object"""
    m = message(C)
    kw = kwargs()
    if where == 'own':
        assume('request' not in m)
        return m, kw, m
    assume('request' in m and isinstance(m['request'], str))
    return m, kw, token_content(m['request'])


def without_openid(C, where):
    m, kw, c = _start(C, where)
    if known('scope' in c):
        assume('openid' not in c['scope'])
    refuses(m, kw, 'a request without openid scope is accepted')


def without_response_type(C, where):
    m, kw, c = _start(C, where)
    assume('response_type' not in c)
    refuses(m, kw, 'a request without response type is accepted')


def without_nonce(C, where):
    m, kw, c = _start(C, where)
    assume('response_type' in c and 'id_token' in c['response_type'])
    assume('nonce' not in c)
    refuses(m, kw, 'a request for an ID token without nonce is accepted')


def other_nonce(C, where):
    m, kw, c = _start(C, where)
    assume('response_type' in c and 'id_token' in c['response_type'])
    assume('nonce' in c and 'nonce' in kw)
    assume(c['nonce'] != kw['nonce'])
    refuses(m, kw, 'a request with another nonce than the expected one is accepted')


def offline_without_consent(C, where):
    m, kw, c = _start(C, where)
    assume('scope' in c and 'offline_access' in c['scope'])
    if known('prompt' in c):
        assume('consent' not in c['prompt'])
    refuses(m, kw, 'offline access without consent is accepted')


def none_and_others(C, where):
    m, kw, c = _start(C, where)
    assume('prompt' in c and 'none' in c['prompt'])
    assume(len(c['prompt']) > 1)
    refuses(m, kw, 'prompt none together with others is accepted')


def _good(C):
    m = message(C)
    kw = kwargs()
    flag('always_verified')
    assume('request' not in m and 'id_token_hint' not in m and 'request_uri' not in m)
    assume('client_id' in m and 'response_type' in m and 'scope' in m)
    assume('openid' in m['scope'])
    return m, kw


def _nonce_ok(m, kw):
    if 'id_token' in m['response_type']:
        assume('nonce' in m)
        if 'nonce' in kw:
            assume(m['nonce'] == kw['nonce'])


def accepts_login(C):
    m, kw = _good(C)
    _nonce_ok(m, kw)
    assume('offline_access' not in m['scope'])
    if 'prompt' in m:
        if 'none' in m['prompt']:
            assume(len(m['prompt']) == 1)
    accepts(m, kw, 'a request that obeys the rules is refused')


def accepts_offline(C):
    m, kw = _good(C)
    _nonce_ok(m, kw)
    assume('offline_access' in m['scope'])
    assume('prompt' in m and 'consent' in m['prompt'])
    assume('none' not in m['prompt'])
    accepts(m, kw, 'a request for offline access with consent is refused')


def accepts_code_without_nonce(C):
    m, kw = _good(C)
    assume('id_token' not in m['response_type'])
    assume('prompt' not in m and 'offline_access' not in m['scope'])
    accepts(m, kw, 'a code request is refused')
