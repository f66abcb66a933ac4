from oidcmsg.message import Message
from oidcmsg.exception import DecodeError
from oidcmsg import verified_claim_name

SLOT = verified_claim_name('request')


def _merge(C, treatment, whitelist):
    """the content before, the request object and what the merge made of the message"""
    before = message(C)
    m = message(C)
    r = message(C, 'object')
    try:
        if whitelist is None:
            m.merge(r, treatment)
        else:
            m.merge(r, treatment, whitelist)
    except (ValueError, DecodeError) as e:
        assume(False)
    return before, r, m


def object_wins(C, treatment):
    w = None
    if treatment == 'whitelist':
        w = sym('whitelist')
        assume(isinstance(w, list))
    before, r, m = _merge(C, treatment, w)
    p = sym('parameter')
    assume(p in r)
    require(p in m, 'a parameter of the request object is missing after the merge')
    require(same(m[p], r[p]), 'a parameter of the request object does not take precedence')


def strict_drops(C):
    before, r, m = _merge(C, 'strict', None)
    p = sym('parameter')
    assume(p not in r)
    require(p not in m, 'a parameter outside the request object survives the strict merge')


def default_is_strict(C):
    m = message(C)
    r = message(C, 'object')
    m.merge(r)
    p = sym('parameter')
    assume(p not in r)
    require(p not in m, 'a parameter outside the request object survives the default merge')


def whitelist_drops(C):
    w = sym('whitelist')
    assume(isinstance(w, list))
    before, r, m = _merge(C, 'whitelist', w)
    p = sym('parameter')
    assume(p not in r)
    assume(p not in w)
    require(p not in m, 'a parameter that is neither in the request object nor on the whitelist survives')


def whitelist_keeps(C):
    w = sym('whitelist')
    assume(isinstance(w, list))
    assume(bool(w))
    before, r, m = _merge(C, 'whitelist', w)
    p = sym('parameter')
    assume(p not in r)
    assume(p in w)
    if p in before:
        require(p in m, 'a whitelisted parameter is lost')
        require(same(m[p], before[p]), 'a whitelisted parameter is changed')
    else:
        require(p not in m, 'a parameter appears from nowhere')


def no_whitelist_drops(C):
    before, r, m = _merge(C, 'whitelist', None)
    p = sym('parameter')
    assume(p not in r)
    require(p not in m, 'a parameter survives a merge without whitelist')


def lax_keeps(C):
    before, r, m = _merge(C, 'lax', None)
    p = sym('parameter')
    assume(p not in r)
    if p in before:
        require(p in m, 'a parameter is lost in the lax merge')
        require(same(m[p], before[p]), 'a parameter is changed in the lax merge')
    else:
        require(p not in m, 'a parameter appears from nowhere')


def unknown_treatment(C):
    m = message(C)
    r = message(C, 'object')
    t = sym('treatment')
    assume(isinstance(t, str))
    assume(t not in ('strict', 'lax', 'whitelist'))
    try:
        m.merge(r, t)
    except Exception as e:
        reached()
        return
    fail('an unknown treatment is not refused')


def _with_object(C):
    m = message(C)
    kw = kwargs()
    assume('request' in m and isinstance(m['request'], str))
    return m, kw, m['request']


def object_authenticated(C):
    m, kw, t = _with_object(C)
    if accepted(m, kw):
        require('keyjar' in kw and loaded(t, kw['keyjar']), 'a request object is used that was not authenticated with the key material given')
    reached()


def strict_in_use(C):
    m, kw, t = _with_object(C)
    c = token_content(t)
    if accepted(m, kw):
        p = sym('parameter')
        assume(p != SLOT and p != 'verified_id_token_hint')
        assume(p not in own_slots())
        if p in c:
            require(p in m, 'a parameter of the request object is missing')
            require(same(m[p], c[p]), 'a parameter of the request object does not take precedence')
        else:
            require(p not in m, 'a parameter outside the request object survives')
    reached()


def own_slots():
    return [verified_claim_name(x) for x in ('id_token', 'id_token_hint', 'logout_token', 'request')]


def lax_in_use(C):
    m, kw, t = _with_object(C)
    before = message(C)
    c = token_content(t)
    if accepted(m, kw):
        p = sym('parameter')
        assume(p not in own_slots())
        if p in c:
            require(p in m, 'a parameter of the request object is missing')
            require(same(m[p], c[p]), 'a parameter of the request object does not take precedence')
        elif p in before:
            require(p in m and same(m[p], before[p]), 'a parameter outside the request object is lost')
        else:
            require(p not in m, 'a parameter appears from nowhere')
    reached()


def result_complete(C, p, lax):
    """generic verification inlined: the merged request lacks a required parameter"""
    m, kw, t = _with_object(C)
    c = token_content(t)
    assume(p not in c)
    if lax:
        assume(p not in m)
    refuses(m, kw, 'a merged request without the required parameter %s is accepted' % p)


def result_nonempty(C, p):
    m, kw, t = _with_object(C)
    c = token_content(t)
    assume(p in c)
    assume(not c[p])
    refuses(m, kw, 'a merged request with an empty value for the required parameter %s is accepted' % p)


def result_vocabulary(C, p, islist):
    m, kw, t = _with_object(C)
    c = token_content(t)
    assume(p in c and c[p])
    if islist:
        assume(isinstance(c[p], list))
        x = sym('member')
        assume(x in c[p])
        assume(x not in C.c_allowed_values[p])
    else:
        assume(not isinstance(c[p], list))
        assume(c[p] not in C.c_allowed_values[p])
    refuses(m, kw, 'a merged request with a value that is not permitted for %s is accepted' % p)


def good_object(C, lax):
    """generic verification passes on what is in order; the object is signed with a key of the key jar"""
    m, kw, t = _with_object(C)
    flag('always_verified')
    c = token_content(t)
    assume(t and is_jws(t))
    assume(header(t)['alg'] != 'none')
    assume('keyjar' in kw and 'iss' in payload(t) and payload(t)['iss'] in kw['keyjar'])
    for n in kw:
        assume(n == 'keyjar')
    for n in C.c_param:
        if C.c_param[n][1]:
            assume(n in c and n in m)
    for n in ('id_token_hint', 'prompt'):
        assume(n not in c and n not in m)
    assume('scope' in c and isinstance(c['scope'], list) and 'openid' in c['scope'] and 'offline_access' not in c['scope'])
    assume('response_type' in c and isinstance(c['response_type'], list) and 'id_token' not in c['response_type'])
    accepts(m, kw, 'a request with an authentic and complete request object is refused')
