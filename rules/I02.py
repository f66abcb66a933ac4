from oidcmsg.oauth2 import error_chars
from oidcmsg.oidc.identity_assurance import VerificationElement, VerificationElementRequest, VerifiedClaims, VerifiedClaimsRequest, \
    IDAClaimsRequest, IdentityAssuranceClaims, verify_claims_request


def _asked(inst, base):
    try:
        verify_claims_request(inst, base)
    except Exception as e:
        return False
    return True


def claim_bad(C, name, typ, kind):
    if _asked({name: _bad(kind, typ)}, C()):
        fail('a claims request passes with a wrong constraint (%s) on %s' % (kind, name))
    reached()


def claim_good(C, name, typ):
    if not _asked({name: _good(typ)}, C()):
        fail('a claims request with fitting constraints on %s is refused' % name)
    reached()


def purpose_fine(C, name, n, typ):
    p = sym('purpose')
    assume(isinstance(p, str))
    assume(len(p) == n)
    for c in p:
        assume(c in error_chars)
    if not _asked({name: {'purpose': p, 'essential': None}}, C()):
        fail('a claims request with a purpose of %d permitted characters is refused' % n)
    reached()


def claim_null(C, name):
    if not _asked({name: None}, C()):
        fail('a claims request with a null constraint on %s is refused' % name)
    reached()


def no_claims(C):
    if not _asked({}, C()):
        fail('a claims request without claims is refused')
    reached()


def nested_claims_bad(name, typ, kind):
    if _asked({'claims': {name: _bad(kind, typ)}}, VerifiedClaims()):
        fail('a claims request passes with a wrong constraint (%s) on the nested claim %s' % (kind, name))
    reached()


def nested_verification_bad(name, typ, kind):
    if _asked({'verification': {name: _bad(kind, typ)}, 'claims': None}, VerifiedClaims()):
        fail('a claims request passes with a wrong constraint (%s) on verification.%s' % (kind, name))
    reached()


def nested_good(name, typ):
    if not _asked({'claims': {name: _good(typ)}, 'verification': None}, VerifiedClaims()):
        fail('a claims request with fitting constraints on the nested claim %s is refused' % name)
    reached()


def evidence_bad(kind):
    if _asked({'evidence': [{'type': None}, {'type': _bad(kind, str)}]}, VerificationElement()):
        fail('a claims request passes with a wrong constraint (%s) on the type of evidence' % kind)
    reached()


def evidence_any(kind):
    l = symlist('evidence')
    e = sym('one of them')
    assume(e in l)
    assume(isinstance(e, dict))
    assume('type' in e)
    s = e['type']
    assume(isinstance(s, dict))
    assume('value' in s)
    assume(s['value'] is not None)
    assume(not isinstance(s['value'], str))
    if _asked({'evidence': l}, VerificationElement()):
        fail('a claims request passes with a wrong constraint on one piece of evidence')
    reached()


def request_bad(C, name, typ, kind):
    """the request message itself"""
    m = exact_message(C, {name: _bad(kind, typ)})
    flag('always_verified')
    refuses(m, {}, 'a claims request message is accepted with a wrong constraint (%s) on %s' % (kind, name))


def request_nested_bad(C, outer, name, typ, kind):
    m = exact_message(C, {outer: {name: _bad(kind, typ)}})
    flag('always_verified')
    refuses(m, {}, 'a claims request message is accepted with a wrong constraint (%s) on %s.%s' % (kind, outer, name))


def openid_nested_bad(outer, name, typ, kind):
    m = exact_message(IDAClaimsRequest, {'verified_claims': {outer: {name: _bad(kind, typ)}}})
    flag('always_verified')
    refuses(m, {}, 'an OpenID claims request is accepted with a wrong constraint (%s) on verified_claims.%s.%s' % (kind, outer, name))


def request_good(C, name, typ):
    m = exact_message(C, {name: _good(typ)})
    flag('always_verified')
    accepts(m, {}, 'a claims request message with fitting constraints on %s is refused' % name)


def among_others(C, name, typ, kind, first, last, outer):
    """other claims are requested as well, rightly"""
    d = {'essential': True, 'zzz': {'value': 5}}
    for n in first:
        d[n] = None
    d[name] = _bad(kind, typ)
    for n in last:
        d[n] = {'essential': True} if C.c_param[n][0] in (str, int, bool) else None
    if _asked(d, C()):
        fail('a claims request passes with a wrong constraint (%s) on %s among others' % (kind, name))
    if _asked({'verification': {'trust_framework': None, 'time': None, 'evidence': [{'type': {'value': 'qes'}}]}, 'claims': {'name': None}, outer: d}, VerifiedClaims()):
        fail('a claims request passes with a wrong constraint (%s) on %s among others' % (kind, name))
    reached()


def among_others_reversed(C, name, typ, kind, first, last, outer):
    d = {}
    for n in first:
        d[n] = {'essential': True} if C.c_param[n][0] in (str, int, bool) else None
    d[name] = _bad(kind, typ)
    for n in last:
        d[n] = None
    if _asked(d, C()):
        fail('a claims request passes with a wrong constraint (%s) on %s among others' % (kind, name))
    reached()


def item_bad(C, name, typ, kind):
    """a list of constraints, one of them wrong"""
    if _asked({name: [None, _bad(kind, typ)]}, C()):
        fail('a claims request passes with a wrong constraint (%s) on an item of %s' % (kind, name))
    if _asked({name: [_bad(kind, typ), None]}, C()):
        fail('a claims request passes with a wrong constraint (%s) on an item of %s' % (kind, name))
    reached()


def item_good(C, name, typ):
    if not _asked({name: [None, _good(typ)]}, C()):
        fail('a claims request with fitting constraints on an item of %s is refused' % name)
    if not _asked({name: None}, C()):
        fail('a claims request with a null constraint on %s is refused' % name)
    reached()
